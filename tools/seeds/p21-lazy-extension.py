PROPERTY = 'P21'
NEEDS = 'interpolating on more points than are precomputed, several goroutines'
BREAKS = 'the table of Lagrange polynomials is extended on demand, after initialisation and without synchronisation'
EDITS = [('polynomial/lagrange.go', '\treturn lagrangePolynomials[domainSize]\n', '\tfor len(lagrangePolynomials) <= domainSize {\n\t\tlagrangePolynomials = append(lagrangePolynomials, LagrangeCoefficient(len(lagrangePolynomials)))\n\t}\n\treturn lagrangePolynomials[domainSize]\n')]
PKG = 'polynomial'
FLAGS = '-race'
DEMO = '''
package polynomial

import (
	"sync"
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	before := len(lagrangePolynomials)
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			GetLagrangePolynomial(before + 2)
		}()
	}
	wg.Wait()
	if len(lagrangePolynomials) != before {
		t.Fatal("a constant table was modified after the initialisation")
	}
}
'''
