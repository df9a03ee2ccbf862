PROPERTY = 'P25'
NEEDS = 'a chunked table evaluated with too few coordinates'
BREAKS = 'recombining chunks with fewer coordinates than the chunk index has variables silently ignores chunks'
EDITS = [('polynomial/chunked.go', '\tif logNChunks > len(hPrime) {\n\t\tpanic("We can only chunks on hPrime")\n\t}\n\n\trecombined := chunkedEvalRecombine(bkts, hPrime[len(hPrime)-logNChunks:])', '\tlogNChunks = common.Min(logNChunks, len(hPrime))\n\trecombined := chunkedEvalRecombine(bkts[:1<<logNChunks], hPrime[len(hPrime)-logNChunks:])')]
PKG = 'polynomial'
FLAGS = ''
DEMO = '''
package polynomial

import (
	
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	chunks := AsChunkedBookKeepingTable([][]fr.Element{elems(1, 2), elems(3, 4), elems(5, 6), elems(7, 8)})
	defer func() {
		if recover() == nil {
			t.Fatal("too few coordinates are accepted")
		}
	}()
	EvaluateMixedChunked(chunks, elems(9), elems(3), elems(5))
}
'''
