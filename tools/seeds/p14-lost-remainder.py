PROPERTY = 'P14'
NEEDS = 'a size that the chunk size does not divide, more than 4096 entries'
BREAKS = 'the last, incomplete, chunk is lost when there is at least one complete chunk'
EDITS = [('common/chunks.go', '\tif nChunks*chunkSize < N {', '\tif nChunks == 0 && N > 0 {')]
PKG = 'common'
FLAGS = ''
DEMO = '''
package common

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 4096, 8192, 10000, 1 << 14} {
		next := 0
		for _, r := range IntoChunkRanges(3, n) {
			if r.Begin != next || r.End <= r.Begin {
				t.Fatalf("size %d: range %v", n, r)
			}
			next = r.End
		}
		if next != n {
			t.Fatalf("size %d: covered up to %d", n, next)
		}
	}
}
'''
