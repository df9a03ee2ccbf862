package polyspec

import (
	"gkr-mimc/polynomial"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

func power(x fr.Element, n int) fr.Element {
	var r fr.Element
	r.SetOne()
	for i := 0; i < n; i++ {
		r.Mul(&r, &x)
	}
	return r
}

func number(i int) fr.Element {
	var x fr.Element
	x.SetUint64(uint64(i))
	return x
}

// EvaluatePolynomial is the sum of the monomials
//verif:for P01 P03 P04 P10 P17
func EvaluatePolynomial() {
	n := sym.Pos("n")
	c := sym.Slice[[]fr.Element]("c", n)
	x := sym.Of[fr.Element]("x")
	got := polynomial.EvaluatePolynomial(c, x)
	sym.Equal("value", got, sym.Sum(n, func(i int) fr.Element {
		v := power(x, i)
		v.Mul(&v, &c[i])
		return v
	}))
	sym.Equal("the coefficients are unchanged", c, sym.Slice[[]fr.Element]("c", n))
}

// The l-th polynomial is the product of the X - i, for i != l, divided by its value at l
//verif:for P04 P17
//verif:opaque polynomial.EvaluatePolynomial
func Lagrange() {
	n := sym.Nat("n")
	got := polynomial.LagrangeCoefficient(n)
	sym.Holds("one polynomial per point", len(got) == n)
	for l := 0; l < n; l++ {
		p := make([]fr.Element, n)
		p[0].SetOne()
		for i := 0; i < n; i++ {
			if i != l {
				next := make([]fr.Element, n)
				z := number(i)
				for j := range next {
					var v fr.Element
					v.Mul(&z, &p[j])
					next[j].Neg(&v)
					if j > 0 {
						next[j].Add(&next[j], &p[j-1])
					}
				}
				p = next
			}
		}
		d := polynomial.EvaluatePolynomial(p, number(l))
		d.Inverse(&d)
		for j := range p {
			p[j].Mul(&p[j], &d)
		}
		sym.Equal("coefficients", got[l], p)
	}
}

// The precomputed matrices are those of LagrangeCoefficient
//verif:for P04 P07 P17 P21
//verif:opaque polynomial.LagrangeCoefficient
func LagrangeTable() {
	sym.Init("polynomial")
	for n := 0; n <= 12; n++ {
		sym.Equal("matrix", polynomial.GetLagrangePolynomial(n), polynomial.LagrangeCoefficient(n))
	}
}

// Interpolation is the combination of the Lagrange polynomials
//verif:for P04 P10 P17 P22
//verif:opaque polynomial.LagrangeCoefficient
func Interpolate() {
	n := sym.Nat("n")
	sym.Assume(n <= 12)
	sym.Init("polynomial")
	v := sym.Slice[[]fr.Element]("v", n)
	m := polynomial.LagrangeCoefficient(n)
	sym.Assume(len(m) == n && sym.ForAll(n, func(i int) bool { return len(m[i]) == n }))
	got := polynomial.InterpolateOnRange(v)
	sym.Holds("size", len(got) == n)
	want := make([]fr.Element, n)
	for j := range want {
		want[j] = sym.Sum(n, func(i int) fr.Element {
			x := m[i][j]
			x.Mul(&x, &v[i])
			return x
		})
	}
	sym.Equal("coefficients", got, want)
	sym.Equal("the values are unchanged", v, sym.Slice[[]fr.Element]("v", n))
}
