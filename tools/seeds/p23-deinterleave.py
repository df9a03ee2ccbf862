PROPERTY = 'P23'
NEEDS = 'more than one chunk, of different number than entries'
BREAKS = 'assigning chunked tables concatenates the chunks instead of interleaving them'
EDITS = [('snark/polynomial/multilinear.go', '\tnChunks := len(values)\n\tfor b := range values {\n\t\tfor i := range values[b] {\n\t\t\tm.Table[b+i*nChunks]', '\tfor b := range values {\n\t\tfor i := range values[b] {\n\t\t\tm.Table[b*len(values[b])+i]')]
PKG = 'snark/polynomial'
FLAGS = ''
DEMO = '''
package polynomial

import (
	"reflect"
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func TestDemo(t *testing.T) {
	m := AllocateMultilinear(2)
	values := make([][]fr.Element, 2)
	for b := range values {
		values[b] = make([]fr.Element, 2)
		for i := range values[b] {
			values[b][i].SetUint64(uint64(10*b + i))
		}
	}
	m.AssignFromChunkedBKT(values)
	want := AllocateMultilinear(2)
	for b := range values {
		for i := range values[b] {
			want.Table[2*i+b].Assign(values[b][i])
		}
	}
	for i := range want.Table {
		if !reflect.DeepEqual(m.Table[i], want.Table[i]) {
			t.Fatalf("entry %d", i)
		}
	}
}
'''
