package gadgetspec

import (
	"gkr-mimc/hash"
	hashgadget "gkr-mimc/snark/hash"
	"gkr-mimc/snark/polynomial"
	"verifspec/sym"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

type vars = []frontend.Variable

func system() *frontend.ConstraintSystem { return sym.Of[*frontend.ConstraintSystem]("cs") }

// lin is a + t (b - a)
func lin(a, b, t fr.Element) fr.Element {
	b.Sub(&b, &a)
	b.Mul(&b, &t)
	a.Add(&a, &b)
	return a
}

// at is the multilinear polynomial of values t, at q (most significant variable first)
func at(t []fr.Element, q []fr.Element) fr.Element {
	t = append([]fr.Element{}, t...)
	for k := range q {
		mid := len(t) / 2
		for i := 0; i < mid; i++ {
			t[i] = lin(t[i], t[i+mid], q[k])
		}
		t = t[:mid]
	}
	return t[0]
}

func eq(a, b []fr.Element) fr.Element {
	var r, one fr.Element
	one.SetOne()
	r.SetOne()
	for i := range a {
		// (1-a)(1-b) + a b
		var x, y, z fr.Element
		x.Sub(&one, &a[i])
		y.Sub(&one, &b[i])
		x.Mul(&x, &y)
		z.Mul(&a[i], &b[i])
		x.Add(&x, &z)
		r.Mul(&r, &x)
	}
	return r
}

// Multilinear evaluation
//verif:for P02 P04 P15
func Eval() {
	n := sym.Nat("n")
	m := polynomial.NewMultilinearByValues(sym.Slice[vars]("t", sym.Pow2(n)))
	q := sym.Slice[vars]("q", n)
	got := m.Eval(system(), q)
	sym.Equal("value", got, at(sym.Slice[[]fr.Element]("t", sym.Pow2(n)), sym.Slice[[]fr.Element]("q", n)))
	sym.Equal("the table is unchanged", m.Table, sym.Slice[vars]("t", sym.Pow2(n)))
	sym.Equal("the point is unchanged", q, sym.Slice[vars]("q", n))
}

// Fold fixes the most significant variable
//verif:for P02 P04 P15
func Fold() {
	n := sym.Nat("n")
	m := polynomial.NewMultilinearByValues(sym.Slice[vars]("t", 2*n))
	x := sym.Slice[[]fr.Element]("t", 2*n)
	r := sym.Of[frontend.Variable]("r")
	m.Fold(system(), r)
	sym.Holds("size", len(m.Table) == n)
	want := make([]fr.Element, n)
	for i := range want {
		want[i] = lin(x[i], x[i+n], sym.Of[fr.Element]("r"))
	}
	sym.Equal("values", m.Table, want)
}

// EvalMixed evaluates at (qL, q') and (qR, q')
//verif:for P02 P04 P15
func EvalMixed() {
	g, n := sym.Nat("g"), sym.Nat("n")
	m := polynomial.NewMultilinearByValues(sym.Slice[vars]("t", sym.Pow2(g+n)))
	l, r, q := sym.Slice[vars]("l", g), sym.Slice[vars]("r", g), sym.Slice[vars]("q", n)
	a, b := m.EvalMixed(system(), l, r, q)
	rows := make([]fr.Element, sym.Pow2(g))
	t := sym.Slice[[]fr.Element]("t", sym.Pow2(g+n))
	for i := range rows {
		rows[i] = at(t[i*sym.Pow2(n):(i+1)*sym.Pow2(n)], sym.Slice[[]fr.Element]("q", n))
	}
	sym.Equal("left", a, at(rows, sym.Slice[[]fr.Element]("l", g)))
	sym.Equal("right", b, at(rows, sym.Slice[[]fr.Element]("r", g)))
	sym.Equal("the table is unchanged", m.Table, sym.Slice[vars]("t", sym.Pow2(g+n)))
}

// A copy shares nothing
//verif:for P15 P10
func Copy() {
	n := sym.Nat("n")
	m := polynomial.NewMultilinearByValues(sym.Slice[vars]("t", n))
	c := m.DeepCopy()
	sym.Equal("values", c, m)
	sym.Fresh("no memory is shared", c, m)
}

// eq
//verif:for P02 P04 P16
func Eq() {
	n := sym.Nat("n")
	got := polynomial.EqEval(system(), sym.Slice[vars]("a", n), sym.Slice[vars]("b", n))
	sym.Equal("value", got, eq(sym.Slice[[]fr.Element]("a", n), sym.Slice[[]fr.Element]("b", n)))
}

// Univariate polynomials
//verif:for P02 P03 P04 P17
func Univariate() {
	d := sym.Nat("d")
	u := polynomial.NewUnivariate(sym.Slice[vars]("c", d+1))
	c := sym.Slice[[]fr.Element]("c", d+1)
	x := sym.Of[fr.Element]("x")
	var want fr.Element
	for i := d; i >= 0; i-- {
		want.Mul(&want, &x)
		want.Add(&want, &c[i])
	}
	sym.Equal("value", u.Eval(system(), sym.Of[frontend.Variable]("x")), want)
	sum := sym.Sum(d+1, func(i int) fr.Element { return c[i] })
	sum.Add(&sum, &c[0])
	sym.Equal("p(0) + p(1)", u.ZeroAndOne(system()), sum)
	sym.Equal("the coefficients are unchanged", u.Coefficients, c)
}

// Hash is the native hash
//verif:for P02 P04 P05 P08 P09
func Hash() {
	sym.Assume(len(hash.Arks) >= 91)
	n := sym.Nat("n")
	sym.Equal("value", hashgadget.MimcHash(system(), sym.Slice[vars]("m", n)...), hash.MimcHash(sym.Slice[[]fr.Element]("m", n)))
}

// Allocation and assignment
//verif:for P04 P23
func Multilinear() {
	n, c := sym.Nat("n"), sym.Nat("c")
	m := polynomial.AllocateMultilinear(n + c)
	sym.Holds("size", len(m.Table) == sym.Pow2(n+c))
	k := sym.Pow2(c)
	x := sym.Slice2[[][]fr.Element]("x", k, sym.Pow2(n))
	m.AssignFromChunkedBKT(x)
	want := make([]fr.Element, sym.Pow2(n+c))
	for b := 0; b < k; b++ {
		for i := 0; i < sym.Pow2(n); i++ {
			want[i*k+b].Add(&want[i*k+b], &x[b][i])
		}
	}
	sym.Equal("values", m.Table, want)
}

//verif:for P04 P23 P25
func AssignUnivariate() {
	d, n := sym.Nat("d"), sym.Nat("n")
	u := polynomial.AllocateUnivariate(d)
	sym.Holds("size", len(u.Coefficients) == d+1)
	x := sym.Slice[[]fr.Element]("x", n)
	sym.Holds("a mismatch panics", sym.Panics(func() { u.Assign(x) }) == (n != d+1))
	sym.Assume(n == d+1)
	u.Assign(x)
	sym.Equal("values", u.Coefficients, x)
}

//verif:for P25
func AssignMultilinear() {
	n, m := sym.Nat("n"), sym.Nat("m")
	p := polynomial.AllocateMultilinear(n)
	x := sym.Slice[[]interface{}]("x", m)
	sym.Holds("a mismatch panics", sym.Panics(func() { p.Assign(x) }) == (m != sym.Pow2(n)))
}
