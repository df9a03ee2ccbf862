PROPERTY = 'P06'
NEEDS = 'one layer with two cipher gates whose constants differ'
BREAKS = 'cipher gates are identified by the first digits of their constant, so that different gates get the same identifier'
EDITS = [('circuit/gates.go', 'return fmt.Sprintf("CipherGate-%v", c.Ark.String())', 'return fmt.Sprintf("CipherGate-%.12s", c.Ark.String())')]
PKG = 'circuit'
FLAGS = ''
DEMO = '''
package circuit

import (
	
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func elems(xs ...uint64) []fr.Element {
	r := make([]fr.Element, len(xs))
	for i, x := range xs {
		r[i].SetUint64(x)
	}
	return r
}


func TestDemo(t *testing.T) {
	a := elems(1234567890123456)[0]
	b := elems(1234567890127777)[0]
	if len(Gates([]Wire{{Gate: NewCipherGate(a)}, {Gate: NewCipherGate(b)}})) != 2 {
		t.Fatal("two different gates are taken for one")
	}
}
'''
