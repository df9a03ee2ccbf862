PROPERTY = "P06"
NEEDS = "a circuit using multiplication gates and two consecutive equal right operands that are not the first"
BREAKS = "MulGate.EvalManyVR reuses the product of the first entry for a repeated operand"
EDITS = [("circuit/gates.go", "		res[i].Mul(vL, &vR)\n", "		if i > 0 && vRs[i-1].Equal(&vRs[i]) {\n			res[i].Set(&res[0])\n			continue\n		}\n		res[i].Mul(vL, &vR)\n")]
PKG = "circuit"
DEMO = '''
package circuit

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func TestDemo(t *testing.T) {
	vRs := make([]fr.Element, 4)
	for i, v := range []uint64{5, 7, 7, 9} {
		vRs[i].SetUint64(v)
	}
	var vL, want fr.Element
	vL.SetUint64(3)
	res := make([]fr.Element, 4)
	MulGate{}.EvalManyVR(res, &vL, vRs)
	for i := range vRs {
		MulGate{}.Eval(&want, &vL, &vRs[i])
		if res[i] != want {
			t.Fatalf("entry %d: %v instead of %v", i, res[i].String(), want.String())
		}
	}
}
'''
