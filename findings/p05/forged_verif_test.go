package gkr

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"testing"
)

// A proof made for the right outputs is accepted for wrong ones: the first evaluation point is a constant whose first
// coordinate is 1, so the outputs of the instances whose index starts with a zero bit are not looked at.
func TestForgedOutputs(t *testing.T) {
	c := circuit.NewCircuit([][]circuit.Wire{
		{{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}},
	})
	inputs := common.RandomFrDoubleSlice(1, 16)
	a := c.Assign(inputs, 1)
	prover := NewProver(c, a)
	proof := prover.Prove(1)
	outputs := common.RandomFrDoubleSlice(1, 8)
	copy(outputs[0][4:], a.Values[1][0][4:])
	v := NewVerifier(3, c)
	if v.Verify(proof, a.Values[0], outputs) {
		t.Fatal("wrong outputs of instances 0 to 3 are accepted")
	}
}
