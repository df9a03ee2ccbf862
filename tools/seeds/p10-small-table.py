PROPERTY = "P10"
NEEDS = "a table of two entries that is used again after it has been evaluated"
BREAKS = "small tables are evaluated without being copied first: evaluating one changes it"
EDITS = [("polynomial/book_keeping.go", """	bkCopy := bkt.DeepCopy()
	for _, r := range coordinates {
""", """	bkCopy := *bkt
	if len(coordinates) > 1 {
		bkCopy = bkt.DeepCopy()
	}
	for _, r := range coordinates {
""")]
PKG = "polynomial"
DEMO = '''
package polynomial

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func TestDemo(t *testing.T) {
	table := make([]fr.Element, 2)
	table[0].SetUint64(3)
	table[1].SetUint64(8)
	bkt := NewBookKeepingTable(table)
	var r fr.Element
	r.SetUint64(5)
	a := bkt.Evaluate([]fr.Element{r})
	b := bkt.Evaluate([]fr.Element{r})
	if a != b {
		t.Fatal("the same evaluation gives two results")
	}
}
'''
