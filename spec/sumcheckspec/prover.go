package sumcheckspec

import (
	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// Prove sends in every round the interpolation of the evaluations of the tables folded with the previous challenges
//verif:for P04 P05 P20 P22
//verif:opaque common.GetChallenge=hash.MimcHash hash.MimcHash polynomial.InterpolateOnRange
//verif:opaque sumcheck.SingleThreadedProver.GetEvalsOnHL sumcheck.SingleThreadedProver.GetEvalsOnHR sumcheck.SingleThreadedProver.GetEvalsOnHPrime
func Prove() {
	bN, bG := sym.Nat("bN"), sym.Nat("bG")
	n, g := sym.Pow2(bN), sym.Pow2(bG)
	p := arbitrary(g*n, g*n, n, g*g).prover()
	x := arbitrary(g*n, g*n, n, g*g)

	var want sumcheck.Proof
	want.PolyCoeffs = make([][]fr.Element, bN+2*bG)
	qL, qR, qPrime := make([]fr.Element, bG), make([]fr.Element, bG), make([]fr.Element, bN)
	for i := 0; i < bG; i++ {
		want.PolyCoeffs[i] = polynomial.InterpolateOnRange(x.evalsHL())
		qL[i] = common.GetChallenge(want.PolyCoeffs[i])
		x.vL.Fold(qL[i])
		x.foldStatics(qL[i])
	}
	for i := 0; i < bG; i++ {
		want.PolyCoeffs[bG+i] = polynomial.InterpolateOnRange(x.evalsHR())
		qR[i] = common.GetChallenge(want.PolyCoeffs[bG+i])
		x.vR.Fold(qR[i])
		x.foldStatics(qR[i])
	}
	for i := 0; i < bN; i++ {
		want.PolyCoeffs[2*bG+i] = polynomial.InterpolateOnRange(x.evalsHPrime())
		qPrime[i] = common.GetChallenge(want.PolyCoeffs[2*bG+i])
		x.vL.Fold(qPrime[i])
		x.vR.Fold(qPrime[i])
		x.eq.Fold(qPrime[i])
	}

	proof, gPrime, gL, gR, final := p.Prove()
	sym.Equal("challenges of hL", gL, qL)
	sym.Equal("challenges of hR", gR, qR)
	sym.Equal("challenges of hPrime", gPrime, qPrime)
	sym.Equal("proof", proof, want)
	sym.Equal("number of final claims", len(final), 3+len(x.gates))
	sym.Equal("claim of vL", final[0], x.vL.Table[0])
	sym.Equal("claim of vR", final[1], x.vR.Table[0])
	sym.Equal("claim of eq", final[2], x.eq.Table[0])
	statics := make([]fr.Element, len(x.gates))
	for i := range statics {
		statics[i] = x.statics[i].Table[0]
	}
	sym.Equal("claims of the static tables", final[3:], statics)
}

func (x instance) foldStatics(r fr.Element) {
	for i := range x.statics {
		x.statics[i].Fold(r)
	}
}

func (x instance) evalsHL() []fr.Element {
	q := x.prover()
	return q.GetEvalsOnHL()
}

func (x instance) evalsHR() []fr.Element {
	q := x.prover()
	return q.GetEvalsOnHR()
}

func (x instance) evalsHPrime() []fr.Element {
	q := x.prover()
	return q.GetEvalsOnHPrime()
}
