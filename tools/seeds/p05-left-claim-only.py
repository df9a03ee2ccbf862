PROPERTY = 'P05'
NEEDS = 'nothing but a prover choosing the right claim after the challenge'
BREAKS = 'the combination challenge of a layer hashes the left claim twice, and no longer depends on the right claim (prover, verifier and gadget agree)'
EDITS = [('gkr/prover.go', 'common.GetChallenge([]fr.Element{ClaimsLeft[layer+1], ClaimsRight[layer+1]})', 'common.GetChallenge([]fr.Element{ClaimsLeft[layer+1], ClaimsLeft[layer+1]})'), ('gkr/verifier.go', 'common.GetChallenge([]fr.Element{proof.ClaimsLeft[layer+1], proof.ClaimsRight[layer+1]})', 'common.GetChallenge([]fr.Element{proof.ClaimsLeft[layer+1], proof.ClaimsLeft[layer+1]})'), ('snark/gkr/proof.go', 'hashGadget.MimcHash(cs, p.ClaimsLeft[layer+1], p.ClaimsRight[layer+1])', 'hashGadget.MimcHash(cs, p.ClaimsLeft[layer+1], p.ClaimsLeft[layer+1])')]
PKG = 'gkr'
FLAGS = ''
DEMO = '''
package gkr

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/sumcheck"
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


// The verifier must derive the challenge from both claims: a proof whose second sumcheck was made for the hash of both
// is accepted
func TestDemo(t *testing.T) {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}, {L: 0, R: 1, O: 1, Gate: circuit.MulGate{}}}, {{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}}})
	inputs := [][]fr.Element{elems(3, 5, 7, 11)}
	a := c.Assign(inputs, 1)
	p := NewProver(c, a)
	qPrime, q := GetInitialQPrimeAndQ(1, 0)
	first := p.InitialRoundSumcheckProver(qPrime, q, 1)
	proof1, qPrime, qL, qR, claims := first.Prove(1)
	var one fr.Element
	one.SetOne()
	second := p.IntermediateRoundsSumcheckProver(0, qPrime, qL, qR, one, common.GetChallenge([]fr.Element{claims[0], claims[1]}), 1)
	proof0, _, _, _, claims0 := second.Prove(1)
	v := NewVerifier(1, c)
	proof := Proof{SumcheckProofs: []sumcheck.Proof{proof0, proof1}, ClaimsLeft: []fr.Element{claims0[0], claims[0]}, ClaimsRight: []fr.Element{claims0[1], claims[1]}}
	if !v.Verify(proof, inputs, a.Values[2]) {
		t.Fatal("the challenge does not bind both claims")
	}
}
'''
