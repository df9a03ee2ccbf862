package sumcheckspec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

func tables(name string, k, n int) []polynomial.BookKeepingTable {
	rows := sym.Slice2[[][]fr.Element](name, k, n)
	r := make([]polynomial.BookKeepingTable, k)
	for i := range r {
		r[i] = polynomial.NewBookKeepingTable(rows[i])
	}
	return r
}

// chunked is an arbitrary instance whose tables are cut in chunks
type chunkedInstance struct {
	vL, vR, eq, statics []polynomial.BookKeepingTable
	gates               []circuit.Gate
}

func arbitraryChunks(chunks, nL, nR, n, s int) chunkedInstance {
	gates := sym.Of[[]circuit.Gate]("gates")
	return chunkedInstance{tables("vL", chunks, nL), tables("vR", chunks, nR), tables("eq", chunks, n), tables("statics", len(gates), s), gates}
}

func (x chunkedInstance) prover() sumcheck.MultiThreadedProver {
	return sumcheck.NewMultiThreadedProver(x.vL, x.vR, x.eq, x.gates, x.statics)
}

// chunk is the instance of a chunk, the static tables being copied
func (x chunkedInstance) chunk(k int) instance {
	statics := make([]polynomial.BookKeepingTable, len(x.statics))
	for i := range statics {
		statics[i].Table = append([]fr.Element{}, x.statics[i].Table...)
	}
	return instance{x.vL[k], x.vR[k], x.eq[k], x.gates, statics}
}

// Chunk: the goroutine of a chunk sends the evaluations of the chunk folded with the challenges received so far,
// receives one challenge per round, and then its index and what remains of the tables
//verif:for P04 P13 P22
//verif:opaque sumcheck.SingleThreadedProver.GetEvalsOnHL sumcheck.SingleThreadedProver.GetEvalsOnHR sumcheck.SingleThreadedProver.GetEvalsOnHPrime
func Chunk() {
	bN, bG, chunks := sym.Nat("bN"), sym.Nat("bG"), sym.Pos("chunks")
	k := sym.Nat("k")
	sym.Assume(k < chunks)
	n, g := sym.Pow2(bN), sym.Pow2(bG)
	p := arbitraryChunks(chunks, g*n, g*n, n, g*g).prover()
	x := arbitraryChunks(chunks, g*n, g*n, n, g*g).chunk(k)

	rounds := bN + 2*bG
	r := sym.Slice[[]fr.Element]("r", rounds)
	evals, challenges := make(chan []fr.Element, rounds), make(chan fr.Element, rounds)
	for i := range r {
		challenges <- r[i]
	}
	fin := sym.ChanFor(p.RunForChunk, 1)
	p.RunForChunk(k, evals, challenges, fin, common.NewSemaphore(1))

	sym.Holds("a message per round", len(evals) == rounds)
	sym.Holds("every challenge is used", len(challenges) == 0)
	sym.Holds("one final message", len(fin) == 1)
	want := make([][]fr.Element, rounds)
	for i := 0; i < bG; i++ {
		want[i] = x.evalsHL()
		x.vL.Fold(r[i])
		x.foldStatics(r[i])
	}
	for i := 0; i < bG; i++ {
		want[bG+i] = x.evalsHR()
		x.vR.Fold(r[bG+i])
		x.foldStatics(r[bG+i])
	}
	for i := 0; i < bN; i++ {
		want[2*bG+i] = x.evalsHPrime()
		x.vL.Fold(r[2*bG+i])
		x.vR.Fold(r[2*bG+i])
		x.eq.Fold(r[2*bG+i])
	}
	got := make([][]fr.Element, rounds)
	for i := range got {
		got[i] = <-evals
	}
	sym.Equal("evaluations", got, want)
	last := <-fin
	sym.Equal("index", last.I, k)
	sym.Equal("prover", last.P, x.prover())
}
