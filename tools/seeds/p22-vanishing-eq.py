PROPERTY = 'P22'
NEEDS = "several chunks, and a point q' with a coordinate equal to one"
BREAKS = 'GetClaim drops the chunks whose eq table starts with zero, as if the whole table vanished'
EDITS = [('sumcheck/par.go', '\tdefer semaphore.Release()\n', '\tdefer semaphore.Release()\n\n\tif len(p.eq[chunkIndex].Table) > 1 && p.eq[chunkIndex].Table[0].IsZero() {\n\t\t// eq vanishes over the chunk\n\t\tevalsChan <- fr.Element{}\n\t\treturn\n\t}\n')]
PKG = 'sumcheck'
FLAGS = ''
DEMO = '''
package sumcheck

import (
	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	bk := func(xs ...uint64) polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable(elems(xs...)) }
	tabs := []polynomial.BookKeepingTable{bk(1)}
	p := NewMultiThreadedProver([]polynomial.BookKeepingTable{bk(3, 5), bk(7, 9)}, []polynomial.BookKeepingTable{bk(0, 0), bk(0, 0)},
		[]polynomial.BookKeepingTable{bk(0, 1), bk(0, 0)}, []circuit.Gate{circuit.AddGate{}}, tabs)
	if claim, want := p.GetClaim(2), elems(5)[0]; claim != want {
		t.Fatalf("%v instead of 5", claim.String())
	}
}
'''
