PROPERTY = 'P04'
NEEDS = 'a circuit whose first layer has other numbers of inputs and outputs'
BREAKS = 'the prover computes the number of instances from the outputs of the first layer'
EDITS = [('gkr/prover.go', '- circuit.Layers[0].BGInputs', '- circuit.Layers[0].BGOutputs')]
PKG = 'gkr'
FLAGS = ''
DEMO = '''
package gkr

import (
	"gkr-mimc/circuit"
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}}})
	inputs := [][]fr.Element{elems(3, 5, 7, 11)}
	a := c.Assign(inputs, 1)
	p := NewProver(c, a)
	proof := p.Prove(1)
	v := NewVerifier(1, c)
	if !v.Verify(proof, inputs, a.Values[1]) {
		t.Fatal("an honest proof is rejected")
	}
}
'''
