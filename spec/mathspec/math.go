package mathspec

import (
	"gkr-mimc/common"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// Min and Max
//verif:for P14
func MinMax() {
	a, b := sym.Of[int]("a"), sym.Of[int]("b")
	mn, mx := common.Min(a, b), common.Max(a, b)
	sym.Holds("Min is one of its arguments", mn == a || mn == b)
	sym.Holds("Min is a lower bound", mn <= a && mn <= b)
	sym.Holds("Max is one of its arguments", mx == a || mx == b)
	sym.Holds("Max is an upper bound", mx >= a && mx >= b)
}

// Logarithms in base 2
//verif:for P14
func Logs() {
	a := sym.Pos("a")
	l := common.Log2Floor(a)
	sym.Holds("2^floor <= a", sym.Pow2(l) <= a)
	sym.Holds("a < 2^(floor+1)", a < sym.Pow2(l+1))
	c := common.Log2Ceil(a)
	sym.Holds("a <= 2^ceil", a <= sym.Pow2(c))
	sym.Holds("2^ceil < 2a", sym.Pow2(c) < 2*a)
}

// Conversions
//verif:for P14
func Convert() {
	n := sym.Nat("n")
	x := sym.Slice[[]fr.Element]("x", n)
	g := common.FrToGenericArray(x)
	sym.Holds("length", len(g) == n)
	want := make([]interface{}, n)
	for i := range x {
		want[i] = x[i]
	}
	sym.Equal("content", g, want)
	sym.Equal("the input is unchanged", x, sym.Slice[[]fr.Element]("x", n))
}
