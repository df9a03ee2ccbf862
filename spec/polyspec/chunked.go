package polyspec

import (
	"gkr-mimc/polynomial"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

//verif:for P01 P04 P10 P15
func AsChunked() {
	n, m := sym.Nat("n"), sym.Nat("m")
	x := sym.Slice2[[][]fr.Element]("x", n, m)
	got := polynomial.AsChunkedBookKeepingTable(x)
	sym.Holds("length", len(got) == n)
	want := make([]polynomial.BookKeepingTable, n)
	for i := range want {
		want[i] = polynomial.NewBookKeepingTable(x[i])
	}
	sym.Equal("chunks", got, want)
}

// fold the chunks: variables of the chunk index, most significant first
func recombine(x [][]fr.Element, size int, q []fr.Element) []fr.Element {
	cur := x
	for i := range q {
		mid := len(cur) / 2
		next := make([][]fr.Element, mid)
		for k := range next {
			next[k] = make([]fr.Element, size)
			for j := range next[k] {
				next[k][j] = lin(cur[k][j], cur[k+mid][j], q[i])
			}
		}
		cur = next
	}
	return cur[0]
}

//verif:for P01 P04 P10 P15
//verif:use polynomial.BookKeepingTable.Add=model.TableAdd polynomial.BookKeepingTable.Sub=model.TableSub polynomial.BookKeepingTable.Mul=model.TableMul
func EvaluateChunked() {
	n, c := sym.Nat("n"), sym.Nat("c")
	x := sym.Slice2[[][]fr.Element]("x", sym.Pow2(c), sym.Pow2(n))
	q := sym.Slice[[]fr.Element]("q", n+c)
	got := polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(x), q)
	sym.Equal("value", got, evalTable(recombine(x, sym.Pow2(n), q[n:]), q[:n]))
	sym.Equal("the chunks are unchanged", x, sym.Slice2[[][]fr.Element]("x", sym.Pow2(c), sym.Pow2(n)))
	sym.Equal("the coordinates are unchanged", q, sym.Slice[[]fr.Element]("q", n+c))
}

//verif:for P01 P04 P10 P15
//verif:use polynomial.BookKeepingTable.Add=model.TableAdd polynomial.BookKeepingTable.Sub=model.TableSub polynomial.BookKeepingTable.Mul=model.TableMul
//verif:opaque polynomial.BookKeepingTable.EvaluateLeftAndRight
func EvaluateMixedChunked() {
	n, c, g := sym.Nat("n"), sym.Nat("c"), sym.Nat("g")
	x := sym.Slice2[[][]fr.Element]("x", sym.Pow2(c), sym.Pow2(n+g))
	h, l, r := sym.Slice[[]fr.Element]("h", n+c), sym.Slice[[]fr.Element]("l", g), sym.Slice[[]fr.Element]("r", g)
	a, b := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(x), h, l, r)
	t := polynomial.NewBookKeepingTable(recombine(x, sym.Pow2(n+g), h[n:]))
	wa, wb := t.EvaluateLeftAndRight(h[:n], l, r)
	sym.Equal("left", a, wa)
	sym.Equal("right", b, wb)
	sym.Equal("the chunks are unchanged", x, sym.Slice2[[][]fr.Element]("x", sym.Pow2(c), sym.Pow2(n+g)))
	sym.Equal("h is unchanged", h, sym.Slice[[]fr.Element]("h", n+c))
}

// eq for the chunk index: most significant bit first, entry h of a level gives entries 2h and 2h+1 of the next
//verif:for P04 P10 P13 P16 P22
//verif:use polynomial.BookKeepingTable.Add=model.TableAdd polynomial.BookKeepingTable.Sub=model.TableSub polynomial.BookKeepingTable.Mul=model.TableMul
//verif:opaque polynomial.GetFoldedEqTable
func ChunkedEqTable() {
	n, c, p := sym.Nat("n"), sym.Nat("c"), sym.Pos("nCore")
	q := sym.Slice[[]fr.Element]("q", n+c)
	got := polynomial.GetChunkedEqTable(q, sym.Pow2(c), p)
	want := make([][]fr.Element, sym.Pow2(c))
	want[0] = polynomial.GetFoldedEqTable(q[:n]).Table
	for i, r := range q[n:] {
		for j := 0; j < sym.Pow2(i); j++ {
			at, half := j*sym.Pow2(c-i), sym.Pow2(c-1-i)
			hi, lo := make([]fr.Element, len(want[at])), make([]fr.Element, len(want[at]))
			for k := range hi {
				hi[k].Mul(&want[at][k], &r)
				lo[k].Sub(&want[at][k], &hi[k])
			}
			want[at+half] = hi
			want[at] = lo
		}
	}
	sym.Holds("number of chunks", len(got) == sym.Pow2(c))
	sym.Equal("chunks", got, polynomial.AsChunkedBookKeepingTable(want))
	sym.Equal("the coordinates are unchanged", q, sym.Slice[[]fr.Element]("q", n+c))
}

//verif:for P25
//verif:opaque polynomial.BookKeepingTable.EvaluateLeftAndRight polynomial.BookKeepingTable.Evaluate
//verif:use polynomial.BookKeepingTable.Add=model.TableAdd polynomial.BookKeepingTable.Sub=model.TableSub polynomial.BookKeepingTable.Mul=model.TableMul
func ChunkedSizes() {
	n, c, m := sym.Nat("n"), sym.Pos("c"), sym.Nat("m")
	sym.Assume(m < c)
	x := polynomial.AsChunkedBookKeepingTable(sym.Slice2[[][]fr.Element]("x", sym.Pow2(c), sym.Pow2(n)))
	h, l, r := sym.Slice[[]fr.Element]("h", m), sym.Slice[[]fr.Element]("l", n), sym.Slice[[]fr.Element]("r", n)
	sym.Holds("EvaluateMixedChunked panics", sym.Panics(func() { polynomial.EvaluateMixedChunked(x, h, l, r) }))
}
