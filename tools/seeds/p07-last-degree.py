PROPERTY = 'P07'
NEEDS = 'a layer whose last gate has a lower degree on hL than another one'
BREAKS = 'the number of evaluations along hL follows the degree of the last gate instead of the highest'
EDITS = [('sumcheck/prover.go', '\t\tdegreeHL = common.Max(degreeHL, dL)\n', '\t\tdegreeHL = dL\n')]
PKG = 'sumcheck'
FLAGS = ''
DEMO = '''
package sumcheck

import (
	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


type square struct{ circuit.AddGate }

func (square) ID() string                       { return "square" }
func (square) Degrees() (int, int, int)         { return 2, 0, 2 }
func (square) Eval(res, vL, vR *fr.Element)     { res.Mul(vL, vL) }
func (g square) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	for i := range vLs {
		g.Eval(&res[i], &vLs[i], vR)
	}
}

func TestDemo(t *testing.T) {
	bk := polynomial.NewBookKeepingTable
	p := NewSingleThreadedProver(bk(elems(3, 5)), bk(elems(5, 7)), bk(elems(1)), []circuit.Gate{square{}, circuit.AddGate{}},
		[]polynomial.BookKeepingTable{bk(elems(0, 0, 1, 0)), bk(elems(1, 0, 0, 0))})
	if n := len(p.GetEvalsOnHL()); n != 4 {
		t.Fatalf("%d evaluations of a polynomial of degree 3", n)
	}
}
'''
