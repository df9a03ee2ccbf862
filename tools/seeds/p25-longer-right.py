PROPERTY = "P25"
NEEDS = "a subtraction whose right operand is longer than the left one"
BREAKS = "only a shorter right operand is refused: the entries of a longer one are silently dropped"
EDITS = [("polynomial/book_keeping.go", """	wg.Add(len(chunks))

	// Check that left and right have the same size
	if len(right.Table) != size {
""", """	wg.Add(len(chunks))

	// Check that left and right have the same size
	if len(right.Table) < size {
""")]
PKG = "polynomial"
DEMO = '''
package polynomial

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func TestDemo(t *testing.T) {
	a, b, c := NewBookKeepingTable(make([]fr.Element, 4)), NewBookKeepingTable(make([]fr.Element, 8)), BookKeepingTable{}
	defer func() {
		if recover() == nil {
			t.Fatal("tables of different sizes are subtracted")
		}
	}()
	c.Sub(a, b, 1)
}
'''
