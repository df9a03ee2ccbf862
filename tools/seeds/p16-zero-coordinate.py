PROPERTY = 'P16'
NEEDS = 'a coordinate of the first point that is zero'
BREAKS = 'EvalEq skips the factor of a coordinate that is zero, instead of multiplying by 1-h'
EDITS = [('polynomial/eq.go', '\t\tnxt.Mul(&qPrime[i], &nextQPrime[i]) // nxt', '\t\tif qPrime[i].IsZero() {\n\t\t\tcontinue\n\t\t}\n\t\tnxt.Mul(&qPrime[i], &nextQPrime[i]) // nxt')]
PKG = 'polynomial'
FLAGS = ''
DEMO = '''
package polynomial

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	got := EvalEq(elems(0, 1), elems(1, 1))
	if !got.IsZero() {
		t.Fatal("eq(0 1, 1 1) is not zero")
	}
}
'''
