PROPERTY = 'P12'
NEEDS = 'a table of 16384 entries and three cores: four chunks'
BREAKS = 'the goroutines subtracting the chunks of a table keep their permit, and the caller waits for a fourth one forever'
EDITS = [('polynomial/book_keeping.go', '\t\t\t\tbkt.Table[i].Sub(&left.Table[i], &right.Table[i])\n\t\t\t}\n\t\t\tsemaphore.Release()\n', '\t\t\t\tbkt.Table[i].Sub(&left.Table[i], &right.Table[i])\n\t\t\t}\n')]
PKG = 'polynomial'
FLAGS = ''
DEMO = '''
package polynomial

import (
	"time"
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		x := NewBookKeepingTable(make([]fr.Element, 16384))
		var d BookKeepingTable
		d.Sub(x, x, 3)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("still subtracting")
	}
}
'''
