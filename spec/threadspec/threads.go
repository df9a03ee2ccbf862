// Package threadspec runs the parallel sections on arbitrary data, to examine what their goroutines do
package threadspec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

func table(name string, n int) polynomial.BookKeepingTable {
	return polynomial.NewBookKeepingTable(sym.Slice[[]fr.Element](name, n))
}

//verif:for P11 P12 P13
//verif:threads
//verif:opaque common.IntoChunkRanges
func Sub() {
	n, k, c := sym.Nat("n"), sym.Nat("k"), sym.Pos("nCore")
	d := table("d", k)
	d.Sub(table("s", n), table("t", n), c)
}

//verif:for P11 P12 P13
//verif:threads
//verif:opaque common.IntoChunkRanges
func Mul() {
	n, k, c := sym.Nat("n"), sym.Nat("k"), sym.Pos("nCore")
	d := table("d", k)
	d.Mul(sym.Of[fr.Element]("r"), table("s", n), c)
}

//verif:for P11 P12 P13
//verif:threads
func Evaluate() {
	bI, bO, n, chunks, nCore := sym.Nat("bI"), sym.Nat("bO"), sym.Nat("n"), sym.Nat("chunks"), sym.Pos("nCore")
	l := circuit.Layer{Wires: sym.Of[[]circuit.Wire]("wires"), Gates: sym.Of[[]circuit.Gate]("gates"), BGInputs: bI, BGOutputs: bO}
	sym.Assume(sym.ForAll(len(l.Wires), func(i int) bool {
		w := l.Wires[i]
		return 0 <= w.L && w.L < sym.Pow2(bI) && 0 <= w.R && w.R < sym.Pow2(bI) && 0 <= w.O && w.O < sym.Pow2(bO)
	}))
	l.Evaluate(sym.Slice2[[][]fr.Element]("inputs", chunks, sym.Pow2(bI)*n), nCore)
}

//verif:for P11 P12 P13
//verif:threads
func LayerCopy() {
	a := sym.Of[circuit.Assignment]("assignment")
	k := sym.Nat("layer")
	sym.Assume(k < len(a.Values))
	a.LayerAsBKTWithCopy(k, sym.Pos("nCore"))
}

//verif:for P11 P12 P13
//verif:threads
func Broadcast() {
	n := sym.Nat("n")
	chs := make([]chan fr.Element, n)
	for i := range chs {
		chs[i] = make(chan fr.Element, 1)
	}
	sumcheck.Broadcast(chs, sym.Of[fr.Element]("r"))
}

func tables(name string, k, n int) []polynomial.BookKeepingTable {
	rows := sym.Slice2[[][]fr.Element](name, k, n)
	r := make([]polynomial.BookKeepingTable, k)
	for i := range r {
		r[i] = polynomial.NewBookKeepingTable(rows[i])
	}
	return r
}

// chunks is the input of a multi-threaded prover
type chunks struct {
	vL, vR, eq, statics []polynomial.BookKeepingTable
	gates               []circuit.Gate
}

func arbitrary(n, bG, bN int) chunks {
	gates := sym.Of[[]circuit.Gate]("gates")
	s := sym.Pow2(bG + bN)
	return chunks{tables("vL", n, s), tables("vR", n, s), tables("eq", n, sym.Pow2(bN)), tables("statics", len(gates), sym.Pow2(2*bG)), gates}
}

// looks reads what the goroutines may read too: everything but the values of the chunks
func (c chunks) looks() {
	sink := 0
	for i := range c.vL {
		sink += len(c.vL[i].Table) + len(c.vR[i].Table) + len(c.eq[i].Table)
	}
	for i := range c.statics {
		for j := range c.statics[i].Table {
			x := c.statics[i].Table[j]
			x.SetZero()
		}
	}
	for i := range c.gates {
		g := c.gates[i]
		g.Degrees()
	}
}

// takes uses the values of a chunk, which are the goroutine's own
func (c chunks) takes(i int) {
	for j := range c.vL[i].Table {
		c.vL[i].Table[j].SetZero()
	}
	for j := range c.vR[i].Table {
		c.vR[i].Table[j].SetZero()
	}
	for j := range c.eq[i].Table {
		c.eq[i].Table[j].SetZero()
	}
	c.looks()
}

func (c chunks) prover() sumcheck.MultiThreadedProver {
	return sumcheck.NewMultiThreadedProver(c.vL, c.vR, c.eq, c.gates, c.statics)
}

// GetClaim starts a goroutine per chunk
//verif:for P11 P12 P13
//verif:threads
func GetClaim() {
	n := sym.Pos("chunks")
	p := arbitrary(n, sym.Nat("bG"), sym.Nat("bN")).prover()
	p.GetClaim(sym.Pos("cores"))
}

// Chunks runs the goroutines of the chunks next to each other and to someone who looks at the prover
//verif:for P11 P12 P13
//verif:threads
//verif:opaque sumcheck.SingleThreadedProver.GetEvalsOnHL sumcheck.SingleThreadedProver.GetEvalsOnHR sumcheck.SingleThreadedProver.GetEvalsOnHPrime
func Chunks() {
	n, bG, bN := sym.Pos("chunks"), sym.Nat("bG"), sym.Nat("bN")
	x := arbitrary(n, bG, bN)
	p := x.prover()
	rounds := bN + 2*bG
	evals, fin, s := make(chan []fr.Element, n), sym.ChanFor(p.RunForChunk, n), common.NewSemaphore(sym.Pos("cores"))
	sym.ForAll(n, func(i int) bool {
		r := make(chan fr.Element, rounds)
		for k := 0; k < rounds; k++ {
			r <- fr.Element{}
		}
		go p.RunForChunk(i, evals, r, fin, s)
		return true
	})
	x.looks()
}

// Evals: computing the evaluations of a round writes nothing of what the prover is made of
//verif:for P11 P13 P10
//verif:threads
func Evals() {
	bG, bN := sym.Nat("bG"), sym.Nat("bN")
	gates := sym.Of[[]circuit.Gate]("gates")
	sym.Assume(len(gates) > 0)
	p := sumcheck.NewSingleThreadedProver(table("vL", sym.Pow2(bG+bN+2)), table("vR", sym.Pow2(bG+bN+1)), table("eq", sym.Pow2(bN+1)), gates, tables("statics", len(gates), sym.Pow2(2*bG+1)))
	sym.ForAll(2, func(i int) bool {
		go func() {
			p.GetEvalsOnHL()
			p.GetEvalsOnHR()
			p.GetEvalsOnHPrime()
		}()
		return true
	})
}

func arbitrarySizes() (n, bG, bN int) { return sym.Pow2(sym.Nat("log chunks")), sym.Nat("bG"), sym.Nat("bN") }

var theirs chunks

// aChunk plays all the rounds of a chunk, to examine what the others do meanwhile
func aChunk(p *sumcheck.MultiThreadedProver, i int, evals chan []fr.Element, r chan fr.Element, fin any, s common.Semaphore) {
	_, bG, bN := arbitrarySizes()
	theirs.takes(i)
	sym.Receives(r)
	for k := 0; k < bN+2*bG; k++ {
		evals <- sym.Slice[[]fr.Element]("evals", 3)
	}
	sym.Deliver(fin, i, sumcheck.NewSingleThreadedProver(table("last vL", 1), table("last vR", 1), table("last eq", 1), nil, nil))
}

// Prove runs the prover next to its chunks
//verif:for P11 P12 P13
//verif:threads
//verif:opaque polynomial.InterpolateOnRange common.GetChallenge=hash.MimcHash hash.MimcHash sumcheck.SingleThreadedProver.GetEvalsOnHPrime
//verif:use sumcheck.MultiThreadedProver.RunForChunk=threadspec.aChunk
func Prove() {
	n, bG, bN := arbitrarySizes()
	theirs = arbitrary(n, bG, bN)
	p := theirs.prover()
	p.Prove(sym.Pos("cores"))
}

//verif:for P11 P12 P13
//verif:threads
//verif:opaque common.IntoChunkRanges
func SubInPlace() {
	n, c := sym.Nat("n"), sym.Pos("nCore")
	d := table("d", n)
	d.Sub(d, table("t", n), c)
}
