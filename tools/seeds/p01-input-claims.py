PROPERTY = "P01"
NEEDS = "a first layer whose gates ignore one of their operands, and a proof with a forged claim for that operand"
BREAKS = "a proof is rejected only when both input claims are wrong: one of the two is never enforced alone"
EDITS = [("gkr/verifier.go", "	if actualVL != proof.ClaimsLeft[0] || actualVR != proof.ClaimsRight[0] {", "	if actualVL != proof.ClaimsLeft[0] && actualVR != proof.ClaimsRight[0] {")]
PKG = "gkr"
DEMO = '''
package gkr

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"testing"
)

func TestDemo(t *testing.T) {
	c := circuit.NewCircuit([][]circuit.Wire{
		{{L: 0, R: 1, O: 0, Gate: circuit.CopyGate{}}, {L: 1, R: 0, O: 1, Gate: circuit.CopyGate{}}},
	})
	inputs := common.RandomFrDoubleSlice(1, 8)
	a := c.Assign(inputs, 1)
	prover := NewProver(c, a)
	proof := prover.Prove(1)
	v := NewVerifier(2, c)
	if !v.Verify(proof, a.Values[0], a.Values[1]) {
		t.Fatal("a valid proof is rejected")
	}
	proof.ClaimsRight[0].SetUint64(12345)
	if v.Verify(proof, a.Values[0], a.Values[1]) {
		t.Fatal("a proof with a forged claim is accepted")
	}
}
'''
