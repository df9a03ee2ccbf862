package sumcheckspec

import (
	"gkr-mimc/hash"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// at is the value of a polynomial given by its coefficients
func at(p []fr.Element, x fr.Element) fr.Element {
	return sym.Sum(len(p), func(i int) fr.Element {
		v := p[i]
		for j := 0; j < i; j++ {
			v.Mul(&v, &x)
		}
		return v
	})
}

// Verify accepts exactly when every round polynomial has the claimed sum over {0,1}
//verif:for P03 P05 P04 P01 P19 P10
//verif:opaque hash.MimcHash common.GetChallenge=hash.MimcHash
func Verify() {
	bN, bG := sym.Nat("bN"), sym.Nat("bG")
	claim := sym.Of[fr.Element]("claim")
	proof := sym.Of[sumcheck.Proof]("proof")
	var one fr.Element
	one.SetOne()
	p := proof.PolyCoeffs
	n := len(p)

	ok, hPrime, hL, hR, last := sumcheck.Verifier{}.Verify(claim, proof, bN, bG)

	challenge := func(i int) fr.Element { return hash.MimcHash(p[i]) }
	claimOf := func(i int) fr.Element {
		if i == 0 {
			return claim
		}
		return at(p[i-1], challenge(i-1))
	}
	good := func(i int) bool {
		var s fr.Element
		if len(p[i]) == 0 {
			return false
		}
		a, b := p[i][0], at(p[i], one)
		s.Add(&a, &b)
		return s == claimOf(i)
	}
	sym.Holds("every round is checked", sym.Implies(ok, sym.ForAll(n, good)))
	sym.Holds("a valid proof is accepted", sym.Implies(n >= bN+2*bG && sym.ForAll(n, good), ok))
	sym.Holds("too few rounds are rejected", sym.Implies(n < bN+2*bG, !ok))
	sym.Assume(ok)
	all := make([]fr.Element, n)
	for i := range all {
		all[i] = challenge(i)
	}
	sym.Equal("challenges of hL", hL, all[:bG])
	sym.Equal("challenges of hR", hR, all[bG:2*bG])
	sym.Equal("challenges of hPrime", hPrime, all[2*bG:])
	sym.Equal("last claim", last, claimOf(n))
	sym.Equal("the proof is unchanged", proof, sym.Of[sumcheck.Proof]("proof"))
}
