PROPERTY = 'P09'
NEEDS = 'a message whose length is not a multiple of the block size, after at least one full block'
BREAKS = 'the block is not cleared between two blocks: the last, incomplete, block is padded with what the previous one left, so two messages of different lengths collide'
EDITS = [('hash/poseidon.go', '\tstate := make([]fr.Element, p.t)\n\n\tfor i := 0; i < len(msg); i += p.t {\n\t\tblock := make([]fr.Element, p.t)\n', '\tstate := make([]fr.Element, p.t)\n\tblock := make([]fr.Element, p.t)\n\n\tfor i := 0; i < len(msg); i += p.t {\n')]
PKG = 'hash'
FLAGS = ''
DEMO = '''
package hash

import (
	
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	// the last block of the first message is 5, 0
	if PoseidonT2.Hash(elems(1, 2, 5)) != PoseidonT2.Hash(elems(1, 2, 5, 0)) {
		t.Fatal("not padded with zeroes")
	}
	if PoseidonT2.Hash(elems(1, 2, 5)) == PoseidonT2.Hash(elems(1, 2, 5, 2)) {
		t.Fatal("padded with the previous block")
	}
}
'''
