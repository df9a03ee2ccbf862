package sumcheckspec

import (
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// The sum over the interleaved chunks of what a chunk computes is what the single-threaded prover computes, and
// folding the chunks is folding the whole

// split cuts the values of h' in interleaved chunks
func split(t polynomial.BookKeepingTable, k, chunks int) polynomial.BookKeepingTable {
	return t.InterleavedChunk(k, chunks)
}

// part is chunk k of the instance
func (x instance) part(k, chunks int) instance {
	return instance{split(x.vL, k, chunks), split(x.vR, k, chunks), split(x.eq, k, chunks), x.gates, x.statics}
}

// sumOver adds the evaluations of all the chunks
func sumOver(chunks int, evals func(k int) []fr.Element, n int) []fr.Element {
	r := make([]fr.Element, n)
	for k := 0; k < chunks; k++ {
		e := evals(k)
		for t := range r {
			r[t].Add(&r[t], &e[t])
		}
	}
	return r
}

// SplitHL: the evaluations of the whole are the sums of the evaluations of the chunks, in the rounds of hL
//verif:for P04 P20 P22
func SplitHL() {
	n, g, m, chunks := sym.Pos("n"), sym.Pos("g"), sym.Pos("m"), sym.Pos("chunks")
	x := arbitrary(2*m*n*chunks, g*n*chunks, n*chunks, 2*m*g)
	sym.Assume(len(x.gates) > 0)
	whole := x.evalsHL()
	sym.Equal("evaluations", whole, sumOver(chunks, func(k int) []fr.Element { return x.part(k, chunks).evalsHL() }, len(whole)))
}

// SplitHR is the same in the rounds of hR
//verif:for P04 P20 P22
func SplitHR() {
	n, m, chunks := sym.Pos("n"), sym.Pos("m"), sym.Pos("chunks")
	x := arbitrary(n*chunks, 2*m*n*chunks, n*chunks, 2*m)
	whole := x.evalsHR()
	sym.Equal("evaluations", whole, sumOver(chunks, func(k int) []fr.Element { return x.part(k, chunks).evalsHR() }, len(whole)))
}

// SplitHPrime is the same in the rounds of h'
//verif:for P04 P20 P22
func SplitHPrime() {
	m, chunks := sym.Pos("m"), sym.Pos("chunks")
	x := arbitrary(2*m*chunks, 2*m*chunks, 2*m*chunks, 1)
	whole := x.evalsHPrime()
	sym.Equal("evaluations", whole, sumOver(chunks, func(k int) []fr.Element { return x.part(k, chunks).evalsHPrime() }, len(whole)))
}

// SplitFold: a chunk of a folded table is the folded chunk
//verif:for P04 P15 P22
func SplitFold() {
	m, chunks := sym.Pos("m"), sym.Pos("chunks")
	k := sym.Nat("k")
	sym.Assume(k < chunks)
	r := sym.Of[fr.Element]("r")
	t := polynomial.NewBookKeepingTable(sym.Slice[[]fr.Element]("t", 2*m*chunks))
	part := split(t, k, chunks)
	part.Fold(r)
	t.Fold(r)
	sym.Equal("chunk", part, split(t, k, chunks))
}

// Accumulate receives every message once and adds them element by element
//verif:for P04 P13 P22
func Accumulate() {
	n, m := sym.Pos("messages"), sym.Nat("m")
	rows := sym.Slice2[[][]fr.Element]("rows", n, m)
	ch := make(chan []fr.Element, n)
	want := make([]fr.Element, m)
	for i := range rows {
		ch <- append([]fr.Element{}, rows[i]...)
		for j := range want {
			want[j].Add(&want[j], &rows[i][j])
		}
	}
	got := sumcheck.ConsumeAccumulate(ch, n)
	sym.Equal("sum", got, want)
	sym.Holds("every message is received", len(ch) == 0)
}

// Broadcast sends the challenge once on every channel
//verif:for P04 P12 P22
func Broadcast() {
	n := sym.Nat("n")
	r := sym.Of[fr.Element]("r")
	chs := make([]chan fr.Element, n)
	for i := range chs {
		chs[i] = make(chan fr.Element, 1)
	}
	sumcheck.Broadcast(chs, r)
	count, got := make([]int, n), make([]fr.Element, n)
	ones, want := make([]int, n), make([]fr.Element, n)
	for i := range chs {
		ones[i], want[i] = 1, r
		count[i] = len(chs[i])
		got[i] = <-chs[i]
	}
	sym.Equal("one message each", count, ones)
	sym.Equal("messages", got, want)
}

// Claims: the claim of the multi-threaded prover is the sum of the claims of the chunks
//verif:for P04 P13 P20 P22
//verif:opaque sumcheck.SingleThreadedProver.GetClaim
func Claims() {
	chunks := sym.Pos("chunks")
	nL, nR, n, s := sym.Pos("nL"), sym.Pos("nR"), sym.Pos("n"), sym.Pos("s")
	p := arbitraryChunks(chunks, nL, nR, n, s).prover()
	x := arbitraryChunks(chunks, nL, nR, n, s)
	want := sym.Sum(chunks, func(k int) fr.Element {
		q := instance{x.vL[k], x.vR[k], x.eq[k], x.gates, x.statics}.prover()
		return q.GetClaim()
	})
	sym.Equal("claim", p.GetClaim(sym.Pos("cores")), want)
}

// SplitClaim: the claim of the whole is the sum of the claims of the chunks
//verif:for P04 P20 P22
func SplitClaim() {
	n, g, chunks := sym.Pos("n"), sym.Pos("g"), sym.Pos("chunks")
	x := arbitrary(g*n*chunks, g*n*chunks, n*chunks, g*g)
	whole := x.prover()
	want := sym.Sum(chunks, func(k int) fr.Element {
		q := x.part(k, chunks).prover()
		return q.GetClaim()
	})
	sym.Equal("claim", whole.GetClaim(), want)
}
