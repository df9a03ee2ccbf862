package gkrspec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// point is the result of the sumcheck of a layer
type point struct {
	ok            bool
	qPrime, qL, qR []fr.Element
	value         fr.Element
}

// combine is claimL + lambda claimR
func combine(l, r, lambda fr.Element) fr.Element {
	r.Mul(&r, &lambda)
	l.Add(&l, &r)
	return l
}

func join(a, b []fr.Element) []fr.Element {
	return append(append([]fr.Element{}, a...), b...)
}

// expected is eq(qPrime, hPrime) sum over the gates of static(hL, hR) gate(claimL, claimR)
func expected(gates []circuit.Gate, eq, l, r fr.Element, static func(i int) fr.Element) fr.Element {
	return sym.Sum(len(gates), func(i int) fr.Element {
		var v fr.Element
		s := static(i)
		gates[i].Eval(&v, &l, &r)
		v.Mul(&v, &s)
		v.Mul(&v, &eq)
		return v
	})
}

func dimensions(chunks [][]fr.Element, bN, bG int) bool {
	n := len(chunks)
	return n > 0 && n <= sym.Pow2(bN) && sym.ForAll(n, func(i int) bool { return len(chunks[i])*n == sym.Pow2(bN+bG) })
}

func maxDegree(gates []circuit.Gate, f func(g circuit.Gate) int) int {
	d := 0
	for i := range gates {
		if x := f(gates[i]); x > d {
			d = x
		}
	}
	return d
}

func fits(c circuit.Circuit, bN int, proof gkr.Proof, inputs, outputs [][]fr.Element) bool {
	n := len(c.Layers)
	if len(proof.SumcheckProofs) != n || len(proof.ClaimsLeft) != n || len(proof.ClaimsRight) != n {
		return false
	}
	return dimensions(inputs, bN, c.Layers[0].BGInputs) && dimensions(outputs, bN, c.Layers[n-1].BGOutputs) &&
		sym.ForAll(n, func(k int) bool {
			bG := c.Layers[k].BGInputs
			p := proof.SumcheckProofs[k].PolyCoeffs
			dL := maxDegree(c.Layers[k].Gates, func(g circuit.Gate) int { d, _, _ := g.Degrees(); return d })
			dR := maxDegree(c.Layers[k].Gates, func(g circuit.Gate) int { _, d, _ := g.Degrees(); return d })
			dP := maxDegree(c.Layers[k].Gates, func(g circuit.Gate) int { _, _, d := g.Degrees(); return d })
			return len(p) == bN+2*bG && sym.ForAll(len(p), func(i int) bool {
				if i < bG {
					return len(p[i]) == dL+2
				}
				if i < 2*bG {
					return len(p[i]) == dR+2
				}
				return len(p[i]) == dP+2
			})
		})
}

// Verify accepts exactly the proofs that pass every check of every layer
//verif:for P01 P04 P05 P10 P19
//verif:opaque common.GetChallenge=hash.MimcHash hash.MimcHash sumcheck.Verifier.Verify polynomial.EvaluateChunked polynomial.EvaluateMixedChunked
//verif:opaque model.staticTable polynomial.BookKeepingTable.Evaluate polynomial.EvalEq
//verif:use circuit.Layer.GetStaticTable=model.StaticTables
func Verify() {
	bN := sym.Nat("bN")
	c := sym.Of[circuit.Circuit]("circuit")
	proof := sym.Of[gkr.Proof]("proof")
	inputs, outputs := sym.Of[[][]fr.Element]("inputs"), sym.Of[[][]fr.Element]("outputs")
	n := len(c.Layers)
	sym.Assume(n > 0)
	sym.Assume(sym.ForAll(n, func(k int) bool { return c.Layers[k].BGInputs >= 0 && c.Layers[k].BGOutputs >= 0 }))

	v := gkr.NewVerifier(bN, c)
	got := v.Verify(proof, inputs, outputs)

	sym.Holds("only proofs that fit the circuit are accepted", sym.Implies(got, fits(c, bN, proof, inputs, outputs)))
	sym.Assume(fits(c, bN, proof, inputs, outputs))

	qPrime, q := gkr.GetInitialQPrimeAndQ(bN, c.Layers[n-1].BGOutputs)
	top := polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(outputs), join(q, qPrime))
	lambda := func(k int) fr.Element { return common.GetChallenge([]fr.Element{proof.ClaimsLeft[k], proof.ClaimsRight[k]}) }
	claimOf := func(k int) fr.Element {
		if k == n-1 {
			return top
		}
		return combine(proof.ClaimsLeft[k+1], proof.ClaimsRight[k+1], lambda(k+1))
	}
	sumcheckOf := func(k int) point {
		var p point
		p.ok, p.qPrime, p.qL, p.qR, p.value = sumcheck.Verifier{}.Verify(claimOf(k), proof.SumcheckProofs[k], bN, c.Layers[k].BGInputs)
		return p
	}
	layer := func(k int) bool {
		l := c.Layers[k]
		p := sumcheckOf(k)
		var eq fr.Element
		var static func(i int) fr.Element
		at := join(p.qL, p.qR)
		if k == n-1 {
			eq = polynomial.EvalEq(qPrime, p.qPrime)
			t := l.GetStaticTable(q)
			static = func(i int) fr.Element { return t[i].Evaluate(at) }
		} else {
			above := sumcheckOf(k + 1)
			eq = polynomial.EvalEq(above.qPrime, p.qPrime)
			tL, tR := l.GetStaticTable(above.qL), l.GetStaticTable(above.qR)
			static = func(i int) fr.Element { return combine(tL[i].Evaluate(at), tR[i].Evaluate(at), lambda(k+1)) }
		}
		return p.ok && p.value == expected(l.Gates, eq, proof.ClaimsLeft[k], proof.ClaimsRight[k], static)
	}
	p := sumcheckOf(0)
	vL, vR := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(inputs), p.qPrime, p.qL, p.qR)
	final := vL == proof.ClaimsLeft[0] && vR == proof.ClaimsRight[0]

	sym.Holds("the last layer is checked", sym.Implies(got, layer(n-1)))
	sym.Holds("every other layer is checked", sym.Implies(got, sym.ForAll(n-1, layer)))
	sym.Holds("the inputs are checked", sym.Implies(got, final))
	sym.Holds("a valid proof is accepted", sym.Implies(layer(n-1) && sym.ForAll(n-1, layer) && final, got))
	sym.Equal("the proof is unchanged", proof, sym.Of[gkr.Proof]("proof"))
	sym.Equal("the inputs are unchanged", inputs, sym.Of[[][]fr.Element]("inputs"))
	sym.Equal("the outputs are unchanged", outputs, sym.Of[[][]fr.Element]("outputs"))
}
