package polyspec

import (
	"gkr-mimc/polynomial"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// eq(a, b) = prod of a b + (1-a)(1-b)
func eq1(a, b fr.Element) fr.Element {
	var one, x, y, t fr.Element
	one.SetOne()
	x.Sub(&one, &a)
	y.Sub(&one, &b)
	x.Mul(&x, &y)
	t.Mul(&a, &b)
	t.Add(&t, &x)
	return t
}

//verif:for P01 P04 P10 P16
func EvalEq() {
	n := sym.Nat("n")
	a, b := sym.Slice[[]fr.Element]("a", n), sym.Slice[[]fr.Element]("b", n)
	var want fr.Element
	want.SetOne()
	for i := range a {
		e := eq1(a[i], b[i])
		want.Mul(&want, &e)
	}
	sym.Equal("eq", polynomial.EvalEq(a, b), want)
	sym.Equal("a is unchanged", a, sym.Slice[[]fr.Element]("a", n))
	sym.Equal("b is unchanged", b, sym.Slice[[]fr.Element]("b", n))
}

// eqTable doubles the table for each variable: the first variable selects the halves
func eqTable(q []fr.Element) []fr.Element {
	n := len(q)
	t := make([]fr.Element, sym.Pow2(n))
	t[0].SetOne()
	for i := 0; i < n; i++ {
		for j := 0; j < sym.Pow2(i); j++ {
			lo, hi := j*sym.Pow2(n-i), j*sym.Pow2(n-i)+sym.Pow2(n-1-i)
			t[hi].Mul(&q[i], &t[lo])
			t[lo].Sub(&t[lo], &t[hi])
		}
	}
	return t
}

//verif:for P04 P10 P16
func FoldedEqTable() {
	n := sym.Nat("n")
	q := sym.Slice[[]fr.Element]("q", n)
	got := polynomial.GetFoldedEqTable(q)
	sym.Equal("table", got.Table, eqTable(q))
	sym.Equal("q is unchanged", q, sym.Slice[[]fr.Element]("q", n))
}
