PROPERTY = 'P18'
NEEDS = 'a layer with the same wire twice'
BREAKS = 'a wire that is present twice counts once in the static tables'
EDITS = [('circuit/layers.go', '\t\t\t\ttab[k].Add(&tab[k], &one)\n', '\t\t\t\ttab[k] = one\n')]
PKG = 'circuit'
FLAGS = ''
DEMO = '''
package circuit

import (
	
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	w := Wire{L: 0, R: 1, O: 0, Gate: AddGate{}}
	l := NewLayer([]Wire{w, w})
	tab := l.GetStaticTable(nil)[0].Table
	if two := elems(2)[0]; tab[1] != two {
		t.Fatalf("%v instead of 2", tab[1].String())
	}
}
'''
