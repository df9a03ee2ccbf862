PROPERTY = 'P20'
NEEDS = 'a right value that is zero at a vertex where a gate does not vanish'
BREAKS = 'the evaluations along hL skip vertices whose right value is zero, though a sum or a copy does not vanish there'
EDITS = [('sumcheck/evals.go', '\t\t\t\t\tif staticIsNotZero[i][h] {\n\t\t\t\t\t\tgate.EvalManyVL', '\t\t\t\t\tif staticIsNotZero[i][h] && !evaledVR.IsZero() {\n\t\t\t\t\t\tgate.EvalManyVL')]
PKG = 'sumcheck'
FLAGS = ''
DEMO = '''
package sumcheck

import (
	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	bk := polynomial.NewBookKeepingTable
	p := NewSingleThreadedProver(bk(elems(3, 5)), bk(elems(0, 0)), bk(elems(1)), []circuit.Gate{circuit.AddGate{}}, []polynomial.BookKeepingTable{bk(elems(1, 0, 0, 0))})
	if evals, want := p.GetEvalsOnHL(), elems(3)[0]; evals[0] != want {
		t.Fatalf("%v instead of 3", evals[0].String())
	}
}
'''
