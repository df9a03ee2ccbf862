PROPERTY = 'P20'
NEEDS = 'a vertex where both values are zero, and a gate that does not vanish there (a cipher gate)'
BREAKS = 'GetClaim skips the vertices where both inputs are zero, as if every gate vanished there'
EDITS = [('sumcheck/evals.go', '\t\t\t\tvR = p.vR.Table[hR*n+hPrime]\n\t\t\t\tfor i = 0', '\t\t\t\tvR = p.vR.Table[hR*n+hPrime]\n\t\t\t\tif vL.IsZero() && vR.IsZero() {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tfor i = 0')]
PKG = 'sumcheck'
FLAGS = ''
DEMO = '''
package sumcheck

import (
	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	bk := polynomial.NewBookKeepingTable
	p := NewSingleThreadedProver(bk(elems(0)), bk(elems(0)), bk(elems(1)), []circuit.Gate{circuit.NewCipherGate(elems(1)[0])}, []polynomial.BookKeepingTable{bk(elems(1))})
	if claim, want := p.GetClaim(), elems(1)[0]; claim != want {
		t.Fatalf("%v instead of 1", claim.String())
	}
}
'''
