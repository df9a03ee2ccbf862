PROPERTY = "P03"
NEEDS = "a proof that is internally consistent but for another claim than the one given to the verifier"
BREAKS = "the first round polynomial is never compared with the claimed sum, so the verifier accepts any claim"
EDITS = [("sumcheck/verifier.go", "		if expectedValue != actualValue {", "		if i > 0 && expectedValue != actualValue {")]
PKG = "sumcheck"
DEMO = '''
package sumcheck

import "testing"

func TestDemo(t *testing.T) {
	p := InitializeProverForTests(3)
	claim := p.GetClaim()
	proof, _, _, _, _ := p.Prove()
	if ok, _, _, _, _ := (Verifier{}).Verify(claim, proof, 3, 1); !ok {
		t.Fatal("a valid proof is rejected")
	}
	claim.Double(&claim)
	if ok, _, _, _, _ := (Verifier{}).Verify(claim, proof, 3, 1); ok {
		t.Fatal("a wrong claim is accepted")
	}
}
'''
