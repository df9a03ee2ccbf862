package gkrspec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// copied is a copy of the values of a layer
func copied(a circuit.Assignment, layer int) []polynomial.BookKeepingTable {
	r := make([]polynomial.BookKeepingTable, len(a.Values[layer]))
	for i := range r {
		r[i].Table = append([]fr.Element{}, a.Values[layer][i]...)
	}
	return r
}

func proverOf() (circuit.Circuit, circuit.Assignment, gkr.Prover) {
	c := sym.Of[circuit.Circuit]("circuit")
	a := sym.Of[circuit.Assignment]("assignment")
	sym.Assume(len(c.Layers) > 0 && len(a.Values) == len(c.Layers)+1)
	sym.Assume(len(a.Values[0]) > 0)
	return c, a, gkr.NewProver(c, a)
}

// InitialTables are the values of the inputs of the last layer, eq(q', .) and its static tables folded in q
//verif:for P04 P10 P22
//verif:opaque polynomial.GetChunkedEqTable circuit.Layer.GetStaticTable
func InitialTables() {
	c, a, p := proverOf()
	qPrime, q, nCore := sym.Of[[]fr.Element]("qPrime"), sym.Of[[]fr.Element]("q"), sym.Pos("nCore")
	last := len(c.Layers) - 1
	vL, vR, eq, statics := p.GetBookKeepingTablesForInitialRound(qPrime, q, nCore)
	sym.Equal("left values", vL, copied(a, last))
	sym.Equal("right values", vR, copied(a, last))
	sym.Equal("eq", eq, polynomial.GetChunkedEqTable(qPrime, len(a.Values[last]), nCore))
	sym.Equal("static tables", statics, c.Layers[last].GetStaticTable(q))
	sym.Fresh("the left values are a copy", vL, a, vR)
	sym.Fresh("the right values are a copy", vR, a, vL)
	sym.Equal("the assignment is unchanged", a, sym.Of[circuit.Assignment]("assignment"))
	sym.Equal("the circuit is unchanged", c, sym.Of[circuit.Circuit]("circuit"))
}

// IntermediateTables are the same for an inner layer, the static tables being combined for the two claims
//verif:for P04 P10 P22
//verif:opaque polynomial.GetChunkedEqTable
//verif:opaque polynomial.LinearCombinationOfBookKeepingTables
//verif:use circuit.Layer.GetStaticTable=model.StaticTables
//verif:opaque model.staticTable
func IntermediateTables() {
	c, a, p := proverOf()
	qPrime, qL, qR, nCore := sym.Of[[]fr.Element]("qPrime"), sym.Of[[]fr.Element]("qL"), sym.Of[[]fr.Element]("qR"), sym.Pos("nCore")
	lambdaL, lambdaR := sym.Of[fr.Element]("lambdaL"), sym.Of[fr.Element]("lambdaR")
	k := sym.Nat("layer")
	sym.Assume(k < len(c.Layers))
	vL, vR, eq, statics := p.GetBookKeepingTablesForIntermediateRound(k, qPrime, qL, qR, lambdaL, lambdaR, nCore)
	sym.Equal("left values", vL, copied(a, k))
	sym.Equal("right values", vR, copied(a, k))
	sym.Equal("eq", eq, polynomial.GetChunkedEqTable(qPrime, len(a.Values[k]), nCore))
	tL, tR := c.Layers[k].GetStaticTable(qL), c.Layers[k].GetStaticTable(qR)
	sym.Holds("one static table per gate", len(statics) == len(tL))
	want := make([]polynomial.BookKeepingTable, len(tL))
	for i := range tL {
		want[i] = polynomial.LinearCombinationOfBookKeepingTables(tL[i], tR[i], lambdaL, lambdaR)
	}
	sym.Equal("static tables", statics, want)
	sym.Fresh("the left values are a copy", vL, a, vR)
	sym.Fresh("the right values are a copy", vR, a, vL)
	sym.Equal("the assignment is unchanged", a, sym.Of[circuit.Assignment]("assignment"))
	sym.Equal("the circuit is unchanged", c, sym.Of[circuit.Circuit]("circuit"))
}

// SumcheckProvers are made of these tables and of the gates of the layer
//verif:for P04 P10 P13
//verif:opaque polynomial.GetChunkedEqTable polynomial.LinearCombinationOfBookKeepingTables model.staticTable
//verif:use circuit.Layer.GetStaticTable=model.StaticTables
func SumcheckProvers() {
	c, a, p := proverOf()
	qPrime, qL, qR, nCore := sym.Of[[]fr.Element]("qPrime"), sym.Of[[]fr.Element]("qL"), sym.Of[[]fr.Element]("qR"), sym.Pos("nCore")
	lambdaL, lambdaR := sym.Of[fr.Element]("lambdaL"), sym.Of[fr.Element]("lambdaR")
	vL, vR, eq, statics := p.GetBookKeepingTablesForInitialRound(qPrime, qL, nCore)
	got := p.InitialRoundSumcheckProver(qPrime, qL, nCore)
	sym.Equal("first round", got, sumcheck.NewMultiThreadedProver(vL, vR, eq, c.Layers[len(c.Layers)-1].Gates, statics))

	k := sym.Nat("layer")
	sym.Assume(k < len(c.Layers))
	vL, vR, eq, statics = p.GetBookKeepingTablesForIntermediateRound(k, qPrime, qL, qR, lambdaL, lambdaR, nCore)
	got = p.IntermediateRoundsSumcheckProver(k, qPrime, qL, qR, lambdaL, lambdaR, nCore)
	sym.Equal("other rounds", got, sumcheck.NewMultiThreadedProver(vL, vR, eq, c.Layers[k].Gates, statics))
	sym.Equal("the assignment is unchanged", a, sym.Of[circuit.Assignment]("assignment"))
	sym.Equal("the circuit is unchanged", c, sym.Of[circuit.Circuit]("circuit"))
}

// round is what the sumcheck of a layer gives
type round struct {
	proof          sumcheck.Proof
	qPrime, qL, qR []fr.Element
	left, right    fr.Element
}

func roundOf(proof sumcheck.Proof, qPrime, qL, qR, claims []fr.Element) round {
	return round{proof, qPrime, qL, qR, claims[0], claims[1]}
}

// proved stands for the sumcheck prover: its claims begin with the values on the left and on the right
func proved(p *sumcheck.MultiThreadedProver, nCore int) (proof sumcheck.Proof, qPrime, qL, qR, claims []fr.Element) {
	proof, qPrime, qL, qR, left, right := sumcheckOf(p, nCore)
	return proof, qPrime, qL, qR, []fr.Element{left, right, fr.Element{}}
}

func sumcheckOf(p *sumcheck.MultiThreadedProver, nCore int) (proof sumcheck.Proof, qPrime, qL, qR []fr.Element, left, right fr.Element) {
	return
}

// Prove runs the sumcheck of every layer at the points and claims of the layer above
//verif:for P04 P05 P10 P13
//verif:opaque common.GetChallenge=hash.MimcHash hash.MimcHash gkrspec.sumcheckOf
//verif:use sumcheck.MultiThreadedProver.Prove=gkrspec.proved
//verif:opaque gkr.Prover.InitialRoundSumcheckProver gkr.Prover.IntermediateRoundsSumcheckProver
func Prove() {
	c, a, p := proverOf()
	nCore := sym.Pos("nCore")
	n := len(c.Layers)
	bN := common.Log2Ceil(len(a.Values[0])*len(a.Values[0][0])) - c.Layers[0].BGInputs
	sym.Assume(bN >= 0 && c.Layers[n-1].BGOutputs >= 0)
	got := p.Prove(nCore)

	want := gkr.Proof{SumcheckProofs: make([]sumcheck.Proof, n), ClaimsLeft: make([]fr.Element, n), ClaimsRight: make([]fr.Element, n)}
	qPrime, q := gkr.GetInitialQPrimeAndQ(bN, c.Layers[n-1].BGOutputs)
	top := p.InitialRoundSumcheckProver(qPrime, q, nCore)
	r := roundOf(top.Prove(nCore))
	want.SumcheckProofs[n-1], want.ClaimsLeft[n-1], want.ClaimsRight[n-1] = r.proof, r.left, r.right
	var one fr.Element
	one.SetOne()
	for k := n - 2; k >= 0; k-- {
		lambda := common.GetChallenge([]fr.Element{r.left, r.right})
		s := p.IntermediateRoundsSumcheckProver(k, r.qPrime, r.qL, r.qR, one, lambda, nCore)
		r = roundOf(s.Prove(nCore))
		want.SumcheckProofs[k], want.ClaimsLeft[k], want.ClaimsRight[k] = r.proof, r.left, r.right
	}
	sym.Equal("left claims", got.ClaimsLeft, want.ClaimsLeft)
	sym.Equal("right claims", got.ClaimsRight, want.ClaimsRight)
	sym.Equal("sumcheck proofs", got.SumcheckProofs, want.SumcheckProofs)
	sym.Equal("the assignment is unchanged", a, sym.Of[circuit.Assignment]("assignment"))
	sym.Equal("the circuit is unchanged", c, sym.Of[circuit.Circuit]("circuit"))
}
