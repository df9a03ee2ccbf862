package gatespec

import (
	"gkr-mimc/circuit"
	"verifspec/sym"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

// forms checks that the scalar, vector and gadget forms of a gate compute want(l, r)
func forms(g circuit.Gate, want func(l, r fr.Element) fr.Element) {
	l, r := sym.Of[fr.Element]("l"), sym.Of[fr.Element]("r")
	res := sym.Of[fr.Element]("garbage")
	g.Eval(&res, &l, &r)
	sym.Equal("Eval", res, want(l, r))
	sym.Equal("Eval leaves vL", l, sym.Of[fr.Element]("l"))
	sym.Equal("Eval leaves vR", r, sym.Of[fr.Element]("r"))

	n := sym.Nat("n")
	ls, rs := sym.Slice[[]fr.Element]("ls", n), sym.Slice[[]fr.Element]("rs", n)
	vl, vr := sym.Slice[[]fr.Element]("out", n), sym.Slice[[]fr.Element]("out", n)
	g.EvalManyVL(vl, ls, &r)
	g.EvalManyVR(vr, &l, rs)
	wl, wr := make([]fr.Element, n), make([]fr.Element, n)
	for i := 0; i < n; i++ {
		wl[i] = want(ls[i], r)
		wr[i] = want(l, rs[i])
	}
	sym.Equal("EvalManyVL", vl, wl)
	sym.Equal("EvalManyVR", vr, wr)
	sym.Equal("EvalManyVL leaves vLs", ls, sym.Slice[[]fr.Element]("ls", n))
	sym.Equal("EvalManyVR leaves vRs", rs, sym.Slice[[]fr.Element]("rs", n))
	sym.Equal("EvalMany leaves vL", l, sym.Of[fr.Element]("l"))
	sym.Equal("EvalMany leaves vR", r, sym.Of[fr.Element]("r"))

	cs := sym.Of[*frontend.ConstraintSystem]("cs")
	a, b := sym.Of[frontend.Variable]("l"), sym.Of[frontend.Variable]("r")
	var out frontend.Variable
	sym.Holds("GnarkEval adds no assertion", sym.Asserted(func() { out = g.GnarkEval(cs, a, b) }))
	sym.Equal("GnarkEval", out, want(l, r))
}

//verif:for P01 P04 P06
func AddGateForms() {
	forms(circuit.AddGate{}, func(l, r fr.Element) fr.Element {
		l.Add(&l, &r)
		return l
	})
}

//verif:for P01 P04 P06
func MulGateForms() {
	forms(circuit.MulGate{}, func(l, r fr.Element) fr.Element {
		l.Mul(&l, &r)
		return l
	})
}

//verif:for P01 P04 P06
func CopyGateForms() {
	forms(circuit.CopyGate{}, func(l, r fr.Element) fr.Element { return l })
}

//verif:for P01 P04 P06 P08
func CipherGateForms() {
	k := sym.Of[fr.Element]("ark")
	forms(circuit.NewCipherGate(k), func(l, r fr.Element) fr.Element {
		r.Add(&r, &k)
		r7 := r
		for i := 0; i < 6; i++ {
			r7.Mul(&r7, &r)
		}
		l.Add(&l, &r7)
		return l
	})
}

// In place evaluation: the result may be one of the operands
//verif:for P01 P04 P06
func CombinatorForms() {
	n := sym.Nat("n")
	gates := sym.Slice[[]circuit.Gate]("gates", n)
	statics := sym.Slice[[]fr.Element]("statics", n)
	l, r, e := sym.Of[fr.Element]("l"), sym.Of[fr.Element]("r"), sym.Of[fr.Element]("e")
	got := circuit.EvaluateCombinator(&l, &r, &e, gates, statics)
	var want fr.Element
	for i := 0; i < n; i++ {
		var v fr.Element
		gates[i].Eval(&v, &l, &r)
		v.Mul(&v, &statics[i])
		v.Mul(&v, &e)
		want.Add(&want, &v)
	}
	sym.Equal("EvaluateCombinator is eq·Σ static·gate(vL,vR)", got, want)
	sym.Equal("the statics are unchanged", statics, sym.Slice[[]fr.Element]("statics", n))
}

// Identifiers: two gates of this package have the same identifier only if they are the same gate
//verif:for P06 P18
func Identifiers() {
	a, b := sym.Of[fr.Element]("a"), sym.Of[fr.Element]("b")
	x, y := circuit.NewCipherGate(a).ID(), circuit.NewCipherGate(b).ID()
	sym.Holds("cipher gates with the same identifier have the same constant", sym.Implies(x == y, a == b))
	sym.Holds("the identifier is a function of the constant", sym.Implies(a == b, x == y))
	add, mul, cp := circuit.AddGate{}.ID(), circuit.MulGate{}.ID(), circuit.CopyGate{}.ID()
	sym.Holds("add", add != mul && add != cp && add != x)
	sym.Holds("mul", mul != cp && mul != x)
	sym.Holds("copy", cp != x)
}
