PROPERTY = 'P11'
NEEDS = 'a table of more than 4096 entries and several cores'
BREAKS = 'the goroutines scaling the chunks of a table share one temporary'
EDITS = [('polynomial/book_keeping.go', '\t\t\t\tbkt.Table[i].Mul(&x.Table[i], &lambda)\n', '\t\t\t\ttmp.Mul(&x.Table[i], &lambda)\n\t\t\t\tbkt.Table[i].Set(&tmp)\n'), ('polynomial/book_keeping.go', 'func (bkt *BookKeepingTable) Mul(lambda fr.Element, x BookKeepingTable, nCore int) {\n', 'func (bkt *BookKeepingTable) Mul(lambda fr.Element, x BookKeepingTable, nCore int) {\n\tvar tmp fr.Element\n')]
PKG = 'polynomial'
FLAGS = '-race'
DEMO = '''
package polynomial

import (
	
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	lambda := elems(12345)[0]
	n := 1 << 14
	x := make([]fr.Element, n)
	for i := range x {
		x[i].SetUint64(uint64(i + 1))
	}
	for round := 0; round < 20; round++ {
		var res BookKeepingTable
		res.Mul(lambda, NewBookKeepingTable(x), 4)
		for i := range x {
			var want fr.Element
			want.Mul(&x[i], &lambda)
			if res.Table[i] != want {
				t.Fatalf("entry %d of round %d", i, round)
			}
		}
	}
}
'''
