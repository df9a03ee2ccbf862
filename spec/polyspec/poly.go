package polyspec

import (
	"gkr-mimc/polynomial"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

func table(name string, n int) polynomial.BookKeepingTable {
	return polynomial.NewBookKeepingTable(sym.Slice[[]fr.Element](name, n))
}

func lin(a, b, r fr.Element) fr.Element {
	var d fr.Element
	d.Sub(&b, &a)
	d.Mul(&d, &r)
	d.Add(&d, &a)
	return d
}

// Fold replaces (t_lo, t_hi) by t_lo + r (t_hi - t_lo)
//verif:for P01 P04 P15 P20
func Fold() {
	m := sym.Nat("m")
	r := sym.Of[fr.Element]("r")
	t := table("t", 2*m)
	t.Fold(r)
	o := sym.Slice[[]fr.Element]("t", 2*m)
	want := make([]fr.Element, m)
	for i := range want {
		want[i] = lin(o[i], o[m+i], r)
	}
	sym.Equal("fold", t.Table, want)
}

//verif:for P04 P10 P15 P20
func FunctionEvals() {
	m := sym.Nat("m")
	t := table("t", 2*m)
	got := t.FunctionEvals()
	want := make([]fr.Element, m)
	for i := range want {
		want[i].Sub(&t.Table[m+i], &t.Table[i])
	}
	sym.Equal("deltas", got, want)
	sym.Equal("the table is unchanged", t, table("t", 2*m))
	sym.Fresh("the result is new memory", got, t)
}

//verif:for P15 P10
func DeepCopy() {
	n := sym.Nat("n")
	t := table("t", n)
	c := t.DeepCopy()
	sym.Equal("same content", c, table("t", n))
	sym.Equal("the table is unchanged", t, table("t", n))
	sym.Fresh("no memory is shared", c, t)
}

//verif:for P04 P10 P15 P22
func InterleavedChunk() {
	nChunk, size, on := sym.Pos("nChunk"), sym.Nat("size"), sym.Nat("on")
	sym.Assume(on < nChunk)
	t := table("t", nChunk*size)
	c := t.InterleavedChunk(on, nChunk)
	want := make([]fr.Element, size)
	for i := range want {
		want[i] = t.Table[i*nChunk+on]
	}
	sym.Equal("chunk", c.Table, want)
	sym.Equal("the table is unchanged", t, table("t", nChunk*size))
}

// evalTable is the value at q of the multilinear extension of t, first variable first
func evalTable(t, q []fr.Element) fr.Element {
	b := polynomial.NewBookKeepingTable(append([]fr.Element{}, t...))
	for _, r := range q {
		b.Fold(r)
	}
	return b.Table[0]
}

//verif:for P01 P04 P10 P15
func Evaluate() {
	n := sym.Nat("n")
	t := table("t", sym.Pow2(n))
	q := sym.Slice[[]fr.Element]("q", n)
	sym.Equal("value", t.Evaluate(q), evalTable(sym.Slice[[]fr.Element]("t", sym.Pow2(n)), q))
	sym.Equal("the table is unchanged", t, table("t", sym.Pow2(n)))
	sym.Equal("the coordinates are unchanged", q, sym.Slice[[]fr.Element]("q", n))
}

//verif:for P01 P04 P10 P15
func EvaluateLeftAndRight() {
	n, g := sym.Nat("n"), sym.Nat("g")
	t := table("t", sym.Pow2(n+g))
	h, l, r := sym.Slice[[]fr.Element]("h", n), sym.Slice[[]fr.Element]("l", g), sym.Slice[[]fr.Element]("r", g)
	a, b := t.EvaluateLeftAndRight(h, l, r)
	sym.Equal("left", a, evalTable(t.Table, append(append([]fr.Element{}, l...), h...)))
	sym.Equal("right", b, evalTable(t.Table, append(append([]fr.Element{}, r...), h...)))
	sym.Equal("the table is unchanged", t, table("t", sym.Pow2(n+g)))
	sym.Quiet("no write in the spare capacity of the caller's slices", func() { t.EvaluateLeftAndRight(h, l, r) })
}

//verif:for P04 P15
func LinearCombination() {
	n := sym.Nat("n")
	a, b := sym.Of[fr.Element]("a"), sym.Of[fr.Element]("b")
	s, t := table("s", n), table("t", n)
	got := polynomial.LinearCombinationOfBookKeepingTables(s, t, a, b)
	want := make([]fr.Element, n)
	os, ot := sym.Slice[[]fr.Element]("s", n), sym.Slice[[]fr.Element]("t", n)
	for i := range want {
		var x, y fr.Element
		x.Mul(&a, &os[i])
		y.Mul(&b, &ot[i])
		want[i].Add(&x, &y)
	}
	sym.Equal("a s + b t", got.Table, want)
}

//verif:for P01 P04 P10 P15 P16
func TableAdd() {
	n, k := sym.Nat("n"), sym.Nat("k")
	s, t, d := table("s", n), table("t", n), table("d", k)
	d.Add(s, t)
	want := make([]fr.Element, n)
	for i := range want {
		want[i].Add(&s.Table[i], &t.Table[i])
	}
	sym.Equal("sum", d.Table, want)
	sym.Equal("left unchanged", s, table("s", n))
	sym.Equal("right unchanged", t, table("t", n))
}

//verif:for P01 P04 P10 P13 P15 P16 P22
//verif:opaque common.IntoChunkRanges
func TableSub() {
	n, k, c := sym.Nat("n"), sym.Nat("k"), sym.Pos("nCore")
	s, t, d := table("s", n), table("t", n), table("d", k)
	d.Sub(s, t, c)
	want := make([]fr.Element, n)
	for i := range want {
		want[i].Sub(&s.Table[i], &t.Table[i])
	}
	sym.Equal("difference", d.Table, want)
	sym.Equal("left unchanged", s, table("s", n))
	sym.Equal("right unchanged", t, table("t", n))
}

//verif:for P01 P04 P10 P13 P15 P16 P22
//verif:opaque common.IntoChunkRanges
func TableMul() {
	n, k, c := sym.Nat("n"), sym.Nat("k"), sym.Pos("nCore")
	r := sym.Of[fr.Element]("r")
	s, d := table("s", n), table("d", k)
	d.Mul(r, s, c)
	want := make([]fr.Element, n)
	for i := range want {
		want[i].Mul(&s.Table[i], &r)
	}
	sym.Equal("product", d.Table, want)
	sym.Equal("operand unchanged", s, table("s", n))
}

// a table may be the destination and an operand
//verif:for P01 P04 P13 P15 P16 P22
//verif:opaque common.IntoChunkRanges
func TableInPlace() {
	n, c := sym.Nat("n"), sym.Pos("nCore")
	r := sym.Of[fr.Element]("r")
	a, b, x, d, e, f := table("t", n), table("t", n), table("t", n), table("t", n), table("t", n), table("t", n)
	s := table("s", n)
	sum, dif, mul, rev := make([]fr.Element, n), make([]fr.Element, n), make([]fr.Element, n), make([]fr.Element, n)
	for i := range sum {
		sum[i].Add(&a.Table[i], &s.Table[i])
		dif[i].Sub(&a.Table[i], &s.Table[i])
		rev[i].Sub(&s.Table[i], &a.Table[i])
		mul[i].Mul(&a.Table[i], &r)
	}
	a.Add(a, s)
	sym.Equal("a += s", a.Table, sum)
	b.Add(s, b)
	sym.Equal("a = s + a", b.Table, sum)
	x.Sub(x, s, c)
	sym.Equal("a -= s", x.Table, dif)
	d.Sub(s, d, c)
	sym.Equal("a = s - a", d.Table, rev)
	e.Mul(r, e, c)
	sym.Equal("a *= r", e.Table, mul)
	f.Mul(r, s, c)
	sym.Equal("operand unchanged", s, table("s", n))
}

//verif:for P25
//verif:opaque common.IntoChunkRanges
func SizesChecked() {
	n, m, c := sym.Nat("n"), sym.Nat("m"), sym.Pos("nCore")
	var d, e polynomial.BookKeepingTable
	sym.Holds("Add panics iff the sizes differ", sym.Panics(func() { d.Add(table("s", n), table("t", m)) }) == (n != m))
	sym.Holds("Sub panics iff the sizes differ", sym.Panics(func() { e.Sub(table("s", n), table("t", m), c) }) == (n != m))
}
