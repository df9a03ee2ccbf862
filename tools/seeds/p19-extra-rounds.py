PROPERTY = "P19"
NEEDS = "a proof with more round polynomials than variables, the first ones being valid"
BREAKS = "only the rounds that are expected are checked: whatever follows is accepted unchecked, and passed on as zero challenges"
EDITS = [("sumcheck/verifier.go", "	for i := 0; i < len(proof.PolyCoeffs); i++ {", "	for i := 0; i < bN+2*bG; i++ {")]
PKG = "sumcheck"
DEMO = '''
package sumcheck

import (
	"testing"

	"github.com/consensys/gurvy/bn256/fr"
)

func TestDemo(t *testing.T) {
	p := InitializeProverForTests(3)
	claim := p.GetClaim()
	proof, _, _, _, _ := p.Prove()
	if ok, _, _, _, _ := (Verifier{}).Verify(claim, proof, 3, 1); !ok {
		t.Fatal("a valid proof is rejected")
	}
	var one fr.Element
	one.SetOne()
	proof.PolyCoeffs = append(proof.PolyCoeffs, []fr.Element{one, one, one})
	if ok, _, _, _, _ := (Verifier{}).Verify(claim, proof, 3, 1); ok {
		t.Fatal("a proof with a round that does not add up is accepted")
	}
}
'''
