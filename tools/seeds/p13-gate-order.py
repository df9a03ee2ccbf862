PROPERTY = 'P13'
NEEDS = 'a layer with several gates built twice'
BREAKS = 'the gates of a layer are listed in the iteration order of a map: the same wiring gives circuits whose static tables are in different orders'
EDITS = [('circuit/layers.go', '\t\t\tgates[wire.Gate.ID()] = wire.Gate\n\t\t\tres = append(res, wire.Gate)\n\t\t}\n\t}\n', '\t\t\tgates[wire.Gate.ID()] = wire.Gate\n\t\t}\n\t}\n\tfor _, gate := range gates {\n\t\tres = append(res, gate)\n\t}\n')]
PKG = 'circuit'
FLAGS = ''
DEMO = '''
package circuit

import "testing"

func TestDemo(t *testing.T) {
	w := []Wire{{Gate: AddGate{}}, {Gate: MulGate{}}, {Gate: CopyGate{}}}
	for i := 0; i < 200; i++ {
		for j, g := range Gates(w) {
			if g.ID() != w[j].Gate.ID() {
				t.Fatalf("run %d: gate %d is %s", i, j, g.ID())
			}
		}
	}
}
'''
