PROPERTY = 'P17'
NEEDS = 'ten evaluations or more: a gate of degree 8 along hR'
BREAKS = 'the precomputed Lagrange polynomials stop at nine points, so rounds of higher degree cannot be interpolated'
EDITS = [('polynomial/lagrange.go', 'const maxDomainSize int = 12', 'const maxDomainSize int = 9')]
PKG = 'polynomial'
FLAGS = ''
DEMO = '''
package polynomial

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	p := InterpolateOnRange(elems(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1))
	if one := elems(1)[0]; EvaluatePolynomial(p, elems(77)[0]) != one {
		t.Fatal("not the constant 1")
	}
}
'''
