package circuitspec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/hash"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// The MiMC circuit evaluates the permutation used by the hash: from (x, b) it computes
// permutation(x - b, b) + b
//verif:for P08 P24
//verif:opaque circuit.Gates
func MimcCircuit() {
	sym.Assume(len(hash.Arks) >= 91)
	c := examples.CreateMimcCircuit()
	n := hash.MimcRounds
	sym.Holds("one layer per round", len(c.Layers) == n)
	x, b := sym.Of[fr.Element]("x"), sym.Of[fr.Element]("b")

	eval := func(w circuit.Wire, in []fr.Element) fr.Element {
		var v fr.Element
		w.Gate.Eval(&v, &in[w.L], &in[w.R])
		return v
	}
	sym.Holds("wires of the intermediate layers", sym.ForAll(n-1, func(k int) bool { return len(c.Layers[k].Wires) == 2 }))
	sym.Holds("sizes of the intermediate layers", sym.ForAll(n-1, func(k int) bool {
		return c.Layers[k].BGInputs == 1 && c.Layers[k].BGOutputs == 1
	}))
	sym.Holds("last layer", len(c.Layers[n-1].Wires) == 1 && c.Layers[n-1].BGInputs == 1 && c.Layers[n-1].BGOutputs == 0)

	u, v := x, b
	for k := 0; k < n-1; k++ {
		next := make([]fr.Element, 2)
		for _, w := range c.Layers[k].Wires {
			y := eval(w, []fr.Element{u, v})
			next[w.O].Add(&next[w.O], &y)
		}
		u, v = next[0], next[1]
	}
	sym.Holds("output wire", c.Layers[n-1].Wires[0].O == 0)
	got := eval(c.Layers[n-1].Wires[0], []fr.Element{u, v})

	want := x
	want.Sub(&want, &b)
	hash.MimcPermutationInPlace(&want, b)
	want.Add(&want, &b)
	sym.Equal("output", got, want)
}
