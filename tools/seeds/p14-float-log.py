PROPERTY = "P14"
NEEDS = "an argument just below a power of two, of more than 48 bits"
BREAKS = "the logarithm goes through floating point numbers and is rounded up to the next integer"
EDITS = [("common/math.go", """	res := 0
	for i := a; i > 1; i = i >> 1 {
		res++
	}
	return res
""", """	if a < 2 {
		return 0
	}
	return int(math.Log2(float64(a)))
"""), ("common/math.go", "package common\n", "package common\n\nimport \"math\"\n")]
PKG = "common"
DEMO = '''
package common

import "testing"

func TestDemo(t *testing.T) {
	for k := 1; k < 62; k++ {
		if l := Log2Floor(1<<k - 1); l != k-1 && k > 1 {
			t.Fatal("floor of the logarithm of 2^k-1", k, l)
		}
		if l := Log2Floor(1 << k); l != k {
			t.Fatal("logarithm of 2^k", k, l)
		}
	}
}
'''
