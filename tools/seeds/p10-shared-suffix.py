PROPERTY = 'P10'
NEEDS = 'coordinates that are slices of one array, with room after them'
BREAKS = 'evaluating on the left and on the right overwrites the coordinates that follow hL and hR in their array'
EDITS = [('polynomial/book_keeping.go', '\tcoordinatesLeft := append([]fr.Element{}, hL...)\n\tcoordinatesLeft = append(coordinatesLeft, hPrime...)\n\tcoordinatesRight := append([]fr.Element{}, hR...)\n\tcoordinatesRight = append(coordinatesRight, hPrime...)\n', '\tcoordinatesRight := append([]fr.Element{}, hR...)\n\tcoordinatesRight = append(coordinatesRight, hPrime...)\n\tcoordinatesLeft := append(hL, hPrime...)\n')]
PKG = 'polynomial'
FLAGS = ''
DEMO = '''
package polynomial

import (
	
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	bkt := NewBookKeepingTable(elems(1, 2, 3, 4))
	all := elems(5, 7, 11, 99)
	bkt.EvaluateLeftAndRight(all[2:3], all[0:1], all[1:2])
	want := elems(5, 7, 11, 99)
	for i := range all {
		if all[i] != want[i] {
			t.Fatalf("coordinate %d was overwritten", i)
		}
	}
}
'''
