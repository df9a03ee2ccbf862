PROPERTY = 'P08'
NEEDS = 'a message of more than 16 blocks'
BREAKS = 'MimcHash hashes long messages in batches whose digest restarts the chain, so that it differs from the gadget'
EDITS = [('hash/mimc.go', '\tfor _, x := range input {\n', '\tfor len(input) > 16 {\n\t\thead := MimcHash(input[:16])\n\t\tinput = append([]fr.Element{head}, input[16:]...)\n\t}\n\tfor _, x := range input {\n')]
PKG = 'hash'
FLAGS = ''
DEMO = '''
package hash

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	msg := make([]fr.Element, 20)
	var want fr.Element
	for i := range msg {
		msg[i].SetUint64(uint64(i))
		MimcUpdateInplace(&want, msg[i])
	}
	if MimcHash(msg) != want {
		t.Fatal("a long message is not absorbed block by block")
	}
}
'''
