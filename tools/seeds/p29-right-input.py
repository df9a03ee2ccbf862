PROPERTY = 'P29'
NEEDS = 'a wire with both inputs above every previous one, the right one the higher'
BREAKS = 'the number of inputs of a layer ignores the right input of a wire whose left input is also a new maximum: evaluating the layer reads past the end of the inputs'
EDITS = [('circuit/layers.go', '\t\tif res < wire.L {\n\t\t\tres = wire.L\n\t\t}\n\t\tif res < wire.R {\n', '\t\tif res < wire.L {\n\t\t\tres = wire.L\n\t\t} else if res < wire.R {\n')]
PKG = 'circuit'
FLAGS = ''
DEMO = '''
package circuit

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	l := NewLayer([]Wire{{L: 1, R: 2, O: 0, Gate: AddGate{}}})
	out := l.Evaluate([][]fr.Element{elems(1, 2, 3, 4)}, 1)
	if want := elems(5)[0]; out[0][0] != want {
		t.Fatal("wrong output")
	}
}
'''
