PROPERTY = "P15"
NEEDS = "a table of at least four entries evaluated at a point whose coordinates are all zero or one, read differently in the two directions"
BREAKS = "the value at a vertex is read from the table with the bits of the index in the wrong order"
EDITS = [("polynomial/book_keeping.go", """	bkCopy := bkt.DeepCopy()
	for _, r := range coordinates {
""", """	if len(bkt.Table) == 1<<len(coordinates) {
		// On the vertices, the value is in the table
		var one fr.Element
		one.SetOne()
		index, vertex := 0, true
		for i, r := range coordinates {
			if r == one {
				index += 1 << i
			} else if !r.IsZero() {
				vertex = false
			}
		}
		if vertex {
			return bkt.Table[index]
		}
	}

	bkCopy := bkt.DeepCopy()
	for _, r := range coordinates {
""")]
PKG = "polynomial"
DEMO = '''
package polynomial

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func TestDemo(t *testing.T) {
	table := make([]fr.Element, 8)
	for i := range table {
		table[i].SetUint64(uint64(10 + i))
	}
	bkt := NewBookKeepingTable(table)
	for i := range table {
		at := make([]fr.Element, 3)
		for j := range at {
			at[j].SetUint64(uint64(i >> (2 - j) & 1))
		}
		if v := bkt.Evaluate(at); v != table[i] {
			t.Fatal("wrong value at vertex", i)
		}
	}
}
'''
