package sumcheckspec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// The protocol between the prover and its chunks, when the chunks are arbitrary. See Chunk for what a chunk does,
// Accumulate and Broadcast for the exchange of a round.

type sizes struct{ logChunks, bN, bG int }

func arbitrarySizes() sizes { return sizes{sym.Nat("log chunks"), sym.Nat("bN"), sym.Nat("bG")} }

// rounds is the number of rounds played by the chunks, each having 2^bN values
func (s sizes) rounds() int { return s.bN + 2*s.bG }

func arbitraryGates() []circuit.Gate { return sym.Of[[]circuit.Gate]("gates") }

// roundEvals is the sum over the chunks of the evaluations they send in round k
func roundEvals(k int) []fr.Element {
	s := arbitrarySizes()
	rows := sym.Slice2[[][]fr.Element]("round", s.rounds(), sym.Pos("number of evaluations"))
	return append([]fr.Element{}, rows[k]...)
}

// roundChallenge is the challenge drawn in round k
func roundChallenge(k int) fr.Element {
	return common.GetChallenge(polynomial.InterpolateOnRange(roundEvals(k)))
}

// lastProver is what chunk i is left with
func lastProver(i int) sumcheck.SingleThreadedProver {
	chunks, gates := sym.Pow2(arbitrarySizes().logChunks), arbitraryGates()
	return sumcheck.NewSingleThreadedProver(
		tables("last vL", chunks, 1)[i],
		tables("last vR", chunks, 1)[i],
		tables("last eq", chunks, 1)[i],
		gates,
		tables("last statics", len(gates), 1))
}

// aChunk announces itself to the channels it is given, and leaves the final message of the chunk that arrives i-th, in
// an arbitrary order
func aChunk(p *sumcheck.MultiThreadedProver, i int, evals chan []fr.Element, r chan fr.Element, fin any, s common.Semaphore) {
	evals <- nil
	r <- fr.Element{}
	j := sym.Perm("arrival", sym.Pow2(arbitrarySizes().logChunks), i)
	sym.Deliver(fin, j, lastProver(j))
}

// aRound checks that the messages of all the chunks are received once
func aRound(ch chan []fr.Element, n int) []fr.Element {
	chunks := sym.Pow2(arbitrarySizes().logChunks)
	sym.Require(n == chunks)
	k := len(ch) - chunks
	sym.Require(k < arbitrarySizes().rounds())
	ch <- nil
	return roundEvals(k)
}

// aBroadcast checks that every chunk is told the challenge of the round
func aBroadcast(chs []chan fr.Element, r fr.Element) {
	chunks := sym.Pow2(arbitrarySizes().logChunks)
	sym.Require(len(chs) == chunks)
	for _, ch := range chs {
		k := len(ch) - 1
		sym.Require(sym.Eq(r, roundChallenge(k)))
		ch <- r
	}
}

// Threads: with the chunks of arbitrary messages, the prover plays the single-threaded protocol on their sums, and
// finishes on the merged tables
//verif:for P04 P05 P07 P13 P22
//verif:opaque common.GetChallenge=hash.MimcHash hash.MimcHash polynomial.InterpolateOnRange sumcheck.SingleThreadedProver.GetEvalsOnHPrime
//verif:use sumcheck.MultiThreadedProver.RunForChunk=sumcheckspec.aChunk sumcheck.ConsumeAccumulate=sumcheckspec.aRound sumcheck.Broadcast=sumcheckspec.aBroadcast
func Threads() {
	s := arbitrarySizes()
	chunks := sym.Pow2(s.logChunks)
	n, g := sym.Pow2(s.bN), sym.Pow2(s.bG)
	in := arbitraryChunks(chunks, g*n, g*n, n, g*g)
	p := in.prover()

	bN := s.bN + s.logChunks
	var want sumcheck.Proof
	want.PolyCoeffs = make([][]fr.Element, bN+2*s.bG)
	qL, qR, qPrime := make([]fr.Element, s.bG), make([]fr.Element, s.bG), make([]fr.Element, bN)
	for i := 0; i < s.bG; i++ {
		want.PolyCoeffs[i] = polynomial.InterpolateOnRange(roundEvals(i))
		qL[i] = roundChallenge(i)
	}
	for i := 0; i < s.bG; i++ {
		want.PolyCoeffs[s.bG+i] = polynomial.InterpolateOnRange(roundEvals(s.bG + i))
		qR[i] = roundChallenge(s.bG + i)
	}
	for i := 0; i < s.bN; i++ {
		want.PolyCoeffs[2*s.bG+i] = polynomial.InterpolateOnRange(roundEvals(2*s.bG + i))
		qPrime[i] = roundChallenge(2*s.bG + i)
	}
	merged := instance{gates: in.gates, statics: tables("last statics", len(in.gates), 1)}
	merged.vL.Table, merged.vR.Table, merged.eq.Table = make([]fr.Element, chunks), make([]fr.Element, chunks), make([]fr.Element, chunks)
	for i := 0; i < chunks; i++ {
		merged.vL.Table[i] = tables("last vL", chunks, 1)[i].Table[0]
		merged.vR.Table[i] = tables("last vR", chunks, 1)[i].Table[0]
		merged.eq.Table[i] = tables("last eq", chunks, 1)[i].Table[0]
	}
	for i := 0; i < s.logChunks; i++ {
		want.PolyCoeffs[s.rounds()+i] = polynomial.InterpolateOnRange(merged.evalsHPrime())
		qPrime[s.bN+i] = common.GetChallenge(want.PolyCoeffs[s.rounds()+i])
		merged.vL.Fold(qPrime[s.bN+i])
		merged.vR.Fold(qPrime[s.bN+i])
		merged.eq.Fold(qPrime[s.bN+i])
	}

	var proof sumcheck.Proof
	var gPrime, gL, gR, final []fr.Element
	sym.Holds("every round is played with every chunk", sym.Asserted(func() { proof, gPrime, gL, gR, final = p.Prove(sym.Pos("cores")) }))
	sym.Equal("challenges of hL", gL, qL)
	sym.Equal("challenges of hR", gR, qR)
	sym.Equal("challenges of hPrime", gPrime, qPrime)
	sym.Equal("proof", proof, want)
	sym.Equal("number of final claims", len(final), 3+len(in.gates))
	sym.Equal("claim of vL", final[0], merged.vL.Table[0])
	sym.Equal("claim of vR", final[1], merged.vR.Table[0])
	sym.Equal("claim of eq", final[2], merged.eq.Table[0])
	statics := make([]fr.Element, len(in.gates))
	for i := range statics {
		statics[i] = tables("last statics", len(in.gates), 1)[i].Table[0]
	}
	sym.Equal("claims of the static tables", final[3:], statics)
}
