package gadgetspec

import (
	nativegkr "gkr-mimc/gkr"
	"gkr-mimc/hash"
	gadget "gkr-mimc/snark/gkr"
	hashgadget "gkr-mimc/snark/hash"
	"gkr-mimc/snark/polynomial"
	"gkr-mimc/snark/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

// The sumcheck gadget, as established by SumcheckAssertValid: constraints and values that depend on
// the claim and the polynomials only
func roundsHold(claim frontend.Variable, p []polynomial.Univariate, bG int) bool       { return true }
func challengesL(p []polynomial.Univariate, bG int) []frontend.Variable                { return nil }
func challengesR(p []polynomial.Univariate, bG int) []frontend.Variable                { return nil }
func challengesPrime(p []polynomial.Univariate, bG int) []frontend.Variable            { return nil }
func lastClaim(claim frontend.Variable, p []polynomial.Univariate, bG int) frontend.Variable { return claim }

func assertValid(p *sumcheck.Proof, cs *frontend.ConstraintSystem, claim frontend.Variable, bG int) (hL, hR, hPrime []frontend.Variable, last frontend.Variable) {
	sym.Require(roundsHold(claim, p.HPolys, bG))
	return challengesL(p.HPolys, bG), challengesR(p.HPolys, bG), challengesPrime(p.HPolys, bG), lastClaim(claim, p.HPolys, bG)
}

func joined(a, b []frontend.Variable) []frontend.Variable {
	return append(append([]frontend.Variable{}, a...), b...)
}

// Every layer of the circuit is constrained by the GKR gadget
//verif:for P01 P02 P04 P05
//verif:opaque snark/hash.MimcHash snark/polynomial.MultilinearByValues.Eval snark/polynomial.MultilinearByValues.EvalMixed snark/polynomial.EqEval
//verif:opaque gadgetspec.roundsHold gadgetspec.challengesL gadgetspec.challengesR gadgetspec.challengesPrime gadgetspec.lastClaim
//verif:use snark/sumcheck.Proof.AssertValid=gadgetspec.assertValid
func AssertValid() {
	cs := system()
	n := hash.MimcRounds
	c := sym.Of[gadget.Circuit]("circuit")
	p := sym.Of[gadget.Proof]("proof")
	sym.Assume(len(c.Layers) == n && len(p.SumcheckProofs) == n && len(p.ClaimsLeft) == n && len(p.ClaimsRight) == n)
	sym.Assume(sym.ForAll(n, func(k int) bool { return len(c.Layers[k].StaticTable) == len(c.Layers[k].Gates) }))
	q, qPrime := sym.Of[vars]("q"), sym.Of[vars]("qPrime")
	in, out := sym.Of[polynomial.MultilinearByValues]("in"), sym.Of[polynomial.MultilinearByValues]("out")

	got := sym.Asserted(func() { p.AssertValid(cs, c, q, qPrime, in, out) })

	lambda := func(k int) frontend.Variable { return hashgadget.MimcHash(cs, p.ClaimsLeft[k], p.ClaimsRight[k]) }
	claimOf := func(k int) frontend.Variable {
		if k == n-1 {
			return out.Eval(cs, joined(q, qPrime))
		}
		return cs.Add(p.ClaimsLeft[k+1], cs.Mul(lambda(k+1), p.ClaimsRight[k+1]))
	}
	polys := func(k int) []polynomial.Univariate { return p.SumcheckProofs[k].HPolys }
	hL := func(k int) vars { return challengesL(polys(k), c.Layers[k].BG) }
	hR := func(k int) vars { return challengesR(polys(k), c.Layers[k].BG) }
	hPrime := func(k int) vars { return challengesPrime(polys(k), c.Layers[k].BG) }
	layer := func(k int) bool {
		l := c.Layers[k]
		vL, vR := p.ClaimsLeft[k], p.ClaimsRight[k]
		at := joined(hL(k), hR(k))
		var value frontend.Variable
		var e frontend.Variable
		if k == n-1 {
			value = sym.Sum(len(l.Gates), func(i int) frontend.Variable {
				return cs.Mul(l.StaticTable[i](cs, q).Eval(cs, at), l.Gates[i](cs, vL, vR))
			})
			e = polynomial.EqEval(cs, qPrime, hPrime(k))
		} else {
			value = sym.Sum(len(l.Gates), func(i int) frontend.Variable {
				s := cs.Add(l.StaticTable[i](cs, hL(k+1)).Eval(cs, at), cs.Mul(lambda(k+1), l.StaticTable[i](cs, hR(k+1)).Eval(cs, at)))
				return cs.Mul(s, l.Gates[i](cs, vL, vR))
			})
			e = polynomial.EqEval(cs, hPrime(k+1), hPrime(k))
		}
		return roundsHold(claimOf(k), polys(k), l.BG) && sym.Eq(lastClaim(claimOf(k), polys(k), l.BG), cs.Mul(value, e))
	}
	vL, vR := in.EvalMixed(cs, hL(0), hR(0), hPrime(0))
	final := sym.Eq(vL, p.ClaimsLeft[0]) && sym.Eq(vR, p.ClaimsRight[0])
	sym.Holds("the last layer is constrained", sym.Implies(got, layer(n-1)))
	sym.Holds("every other layer is constrained", sym.Implies(got, sym.ForAll(n-1, layer)))
	sym.Holds("the inputs are constrained", sym.Implies(got, final))
	sym.Holds("valid proofs satisfy the constraints", sym.Implies(layer(n-1) && sym.ForAll(n-1, layer) && final, got))
}

var _ nativegkr.Proof
var _ fr.Element
