PROPERTY = 'P02'
NEEDS = 'a witness whose right input claim differs from the value of the inputs'
BREAKS = 'the gadget no longer ties the right claim of the first layer to the inputs: the constraint compares the claim with itself'
EDITS = [('snark/gkr/proof.go', '\tcs.AssertIsEqual(expectedVR, actualVR)\n', '\tcs.AssertIsEqual(actualVR, p.ClaimsRight[0])\n\t_ = expectedVR\n')]
PKG = 'snark/gkr'
FLAGS = ''
DEMO = '''
package gkr

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	psnark "gkr-mimc/snark/polynomial"
	"testing"

	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
)

var _ = polynomial.EvalEq
var _ circuit.Circuit

type demoCircuit struct {
	Proof      Proof
	In, Out    psnark.MultilinearByValues
	QPrime, Q  []frontend.Variable
	C          Circuit `gnark:"-"`
	_          struct{}
}

func allocDemo(bN int) demoCircuit {
	c := CreateMimcCircuit()
	return demoCircuit{Proof: AllocateProof(bN, c), In: psnark.AllocateMultilinear(bN + 1), Out: psnark.AllocateMultilinear(bN),
		QPrime: make([]frontend.Variable, bN), Q: make([]frontend.Variable, 0)}
}

func (d *demoCircuit) Define(id gurvy.ID, cs *frontend.ConstraintSystem) error {
	d.Proof.AssertValid(cs, CreateMimcCircuit(), d.Q, d.QPrime, d.In, d.Out)
	return nil
}

func TestDemo(t *testing.T) {
	bN := 1
	c := examples.CreateMimcCircuit()
	inputs := [][]fr.Element{common.RandomFrArray(1 << (bN + 1))}
	a := c.Assign(inputs, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	qPrime, _ := gkr.GetInitialQPrimeAndQ(bN, 0)
	outputs := a.Values[len(a.Values)-1]

	x := allocDemo(bN)
	r1cs, err := frontend.Compile(gurvy.BN256, &x)
	if err != nil {
		t.Fatal(err)
	}
	witness := func(inputs [][]fr.Element) demoCircuit {
		w := allocDemo(bN)
		w.Proof.Assign(proof)
		w.In.AssignFromChunkedBKT(inputs)
		w.Out.AssignFromChunkedBKT(outputs)
		for i := range qPrime {
			w.QPrime[i].Assign(qPrime[i])
		}
		return w
	}
	assert := groth16.NewAssert(t)
	good := witness(inputs)
	assert.SolvingSucceeded(r1cs, &good)
	// other inputs, with the same left evaluation: only the right one tells
	// the proof starts with V(hL, h') and V(hR, h'): change V by a polynomial that cancels at hL only
	hL := common.GetChallenge(proof.SumcheckProofs[0].PolyCoeffs[0])
	other := make([]fr.Element, len(inputs[0]))
	copy(other, inputs[0])
	var d0, d1, one fr.Element
	one.SetOne()
	// delta(x) = hL - x: values hL at 0 and hL-1 at 1, for every h'
	d0 = hL
	d1.Sub(&hL, &one)
	n := len(other) / 2
	for h := 0; h < n; h++ {
		other[h].Add(&other[h], &d0)
		other[n+h].Add(&other[n+h], &d1)
	}
	bad := witness([][]fr.Element{other})
	assert.SolvingFailed(r1cs, &bad)
}
'''
