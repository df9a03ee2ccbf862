PROPERTY = 'P15'
NEEDS = 'a first coefficient equal to zero and a second one different from one'
BREAKS = 'the linear combination of two tables forgets the second coefficient when the first is zero'
EDITS = [('polynomial/book_keeping.go', '\tfor i := range prefoldedBKT1.Table {\n', '\tif a0.IsZero() {\n\t\t// Nothing to add\n\t\treturn prefoldedBKT1\n\t}\n\tfor i := range prefoldedBKT1.Table {\n')]
PKG = 'polynomial'
FLAGS = ''
DEMO = '''
package polynomial

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	bk := NewBookKeepingTable
	got := LinearCombinationOfBookKeepingTables(bk(elems(1, 2)), bk(elems(3, 4)), elems(0)[0], elems(5)[0])
	if want := elems(15, 20); got.Table[0] != want[0] || got.Table[1] != want[1] {
		t.Fatal(got.String())
	}
}
'''
