package gadgetspec

import (
	"gkr-mimc/snark/polynomial"
	gadget "gkr-mimc/snark/sumcheck"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

// The constraints of the sumcheck gadget are the checks of the native verifier, on the same challenges
//verif:for P02 P03 P04 P05
//verif:opaque common.GetChallenge=hash.MimcHash hash.MimcHash snark/hash.MimcHash=hash.MimcHash
func SumcheckAssertValid() {
	bN, bG := sym.Nat("bN"), sym.Nat("bG")
	n := bN + 2*bG
	x := sym.Slice[[]vars]("p", n)
	native := sym.Slice[[][]fr.Element]("p", n)
	sym.Assume(sym.ForAll(n, func(i int) bool { return len(native[i]) > 0 }))
	hp := make([]polynomial.Univariate, n)
	for i := range hp {
		hp[i] = polynomial.NewUnivariate(x[i])
	}
	p := gadget.Proof{HPolys: hp}
	var hL, hR, hPrime vars
	var last frontend.Variable
	ok := sym.Asserted(func() {
		hL, hR, hPrime, last = p.AssertValid(system(), sym.Of[frontend.Variable]("claim"), bG)
	})
	accepted, nPrime, nL, nR, nLast := sumcheck.Verifier{}.Verify(sym.Of[fr.Element]("claim"), sumcheck.Proof{PolyCoeffs: native}, bN, bG)
	sym.Holds("satisfied only when the native verifier accepts", sym.Implies(ok, accepted))
	sym.Holds("satisfied when the native verifier accepts", sym.Implies(accepted, ok))
	sym.Assume(accepted)
	sym.Equal("challenges of hL", hL, nL)
	sym.Equal("challenges of hR", hR, nR)
	sym.Equal("challenges of hPrime", hPrime, nPrime)
	sym.Equal("last claim", last, nLast)
	sym.Fresh("the challenges do not share memory", hL, hR, hPrime)
	sym.Fresh("the challenges of hR and hPrime do not share memory", hR, hPrime)
	sym.Equal("the proof is unchanged", x, sym.Slice[[]vars]("p", n))
}

// The allocated proof has a polynomial of the right size for every round
//verif:for P04 P07 P23
func SumcheckAllocate() {
	bN, bG := sym.Nat("bN"), sym.Nat("bG")
	l, r, d := sym.Nat("l"), sym.Nat("r"), sym.Nat("d")
	p := gadget.AllocateProof(bN, bG, l, r, d)
	n := bN + 2*bG
	sym.Holds("number of rounds", len(p.HPolys) == n)
	sym.Holds("sizes", sym.ForAll(n, func(i int) bool {
		if i < bG {
			return len(p.HPolys[i].Coefficients) == l+1
		}
		if i < 2*bG {
			return len(p.HPolys[i].Coefficients) == r+1
		}
		return len(p.HPolys[i].Coefficients) == d+1
	}))
}

// Assigning a proof copies every coefficient; any mismatch panics
//verif:for P04 P23 P25
func SumcheckAssign() {
	n := sym.Nat("n")
	x := sym.Slice[[]vars]("v", n)
	hp := make([]polynomial.Univariate, n)
	for i := range hp {
		hp[i] = polynomial.NewUnivariate(x[i])
	}
	p := gadget.Proof{HPolys: hp}
	proof := sym.Of[sumcheck.Proof]("proof")
	m := len(proof.PolyCoeffs)
	bad := sym.Panics(func() { p.Assign(proof) })
	sym.Holds("accepted sizes", bad == !(m == n && sym.ForAll(n, func(i int) bool { return len(proof.PolyCoeffs[i]) == len(x[i]) })))
	sym.Assume(!bad)
	p.Assign(proof)
	for i := range hp {
		sym.Equal("coefficients", p.HPolys[i].Coefficients, proof.PolyCoeffs[i])
	}
}
