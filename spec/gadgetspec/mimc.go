package gadgetspec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/hash"
	nativegkr "gkr-mimc/gkr"
	gadget "gkr-mimc/snark/gkr"
	"gkr-mimc/snark/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

// chi is the weight of bit b at x
func chi(cs *frontend.ConstraintSystem, b int, x frontend.Variable) frontend.Variable {
	if b == 0 {
		return cs.Sub(1, x)
	}
	return x
}

// layerAt is sum over the gates of static(q, hL, hR) gate(vL, vR)
func layerAt(cs *frontend.ConstraintSystem, l gadget.Layer, q []frontend.Variable, hL, hR, vL, vR frontend.Variable) frontend.Variable {
	return sym.Sum(len(l.Gates), func(i int) frontend.Variable {
		t := l.StaticTable[i](cs, q)
		return cs.Mul(t.Eval(cs, []frontend.Variable{hL, hR}), l.Gates[i](cs, vL, vR))
	})
}

// MimcLayers: the layers of the gadget have the wires of the native circuit
//verif:for P02 P04 P07 P08 P24
//verif:opaque circuit.Gates
func MimcLayers() {
	sym.Assume(len(hash.Arks) >= 91)
	cs := system()
	g := gadget.CreateMimcCircuit()
	c := examples.CreateMimcCircuit()
	n := hash.MimcRounds
	sym.Holds("number of layers", len(g.Layers) == n && len(c.Layers) == n)
	sym.Holds("output size", g.BGOut == c.Layers[n-1].BGOutputs)
	sizes := func(k int) bool { return g.Layers[k].BG == c.Layers[k].BGInputs }
	sym.Holds("input sizes", sym.ForAll(n-1, sizes) && sizes(n-1))
	sym.Holds("a table for every gate", sym.ForAll(n, func(k int) bool { return len(g.Layers[k].Gates) == len(g.Layers[k].StaticTable) }))
	degrees := func(k int) bool {
		l, r, p := 0, 0, 0
		for _, w := range c.Layers[k].Wires {
			a, b, d := w.Gate.Degrees()
			if a > l {
				l = a
			}
			if b > r {
				r = b
			}
			if d > p {
				p = d
			}
		}
		return g.Layers[k].DegHL == l+1 && g.Layers[k].DegHR == r+1 && g.Layers[k].DegHPrime == p+1
	}
	sym.Holds("degrees", sym.ForAll(n-1, degrees) && degrees(n-1))

	q := []frontend.Variable{sym.Of[frontend.Variable]("q")}
	hL, hR := sym.Of[frontend.Variable]("hL"), sym.Of[frontend.Variable]("hR")
	vL, vR := sym.Of[frontend.Variable]("vL"), sym.Of[frontend.Variable]("vR")
	wire := func(w circuit.Wire) frontend.Variable {
		s := cs.Mul(chi(cs, w.L, hL), chi(cs, w.R, hR))
		return cs.Mul(s, w.Gate.GnarkEval(cs, vL, vR))
	}
	for k := 0; k < n-1; k++ {
		want := sym.Sum(len(c.Layers[k].Wires), func(i int) frontend.Variable {
			w := c.Layers[k].Wires[i]
			return cs.Mul(chi(cs, w.O, q[0]), wire(w))
		})
		sym.Equal("intermediate layers", layerAt(cs, g.Layers[k], q, hL, hR, vL, vR), want)
	}
	last := sym.Sum(len(c.Layers[n-1].Wires), func(i int) frontend.Variable { return wire(c.Layers[n-1].Wires[i]) })
	sym.Equal("last layer", layerAt(cs, g.Layers[n-1], nil, hL, hR, vL, vR), last)
}

// AllocateProof makes room for a proof of every layer
//verif:for P04 P07 P23
//verif:opaque snark/sumcheck.AllocateProof
func AllocateProof() {
	bN := sym.Nat("bN")
	c := sym.Of[gadget.Circuit]("circuit")
	p := gadget.AllocateProof(bN, c)
	n := len(c.Layers)
	sym.Holds("sizes", len(p.SumcheckProofs) == n && len(p.ClaimsLeft) == n && len(p.ClaimsRight) == n)
	for k := range c.Layers {
		l := c.Layers[k]
		sym.Equal("proof of the layer", p.SumcheckProofs[k], sumcheck.AllocateProof(bN, l.BG, l.DegHL, l.DegHR, l.DegHPrime))
	}
}

// AssignProof copies every element of the proof
//verif:for P04 P07 P23
func AssignProof() {
	n := sym.Nat("n")
	p := gadget.Proof{
		SumcheckProofs: sym.Slice[[]sumcheck.Proof]("alloc", n),
		ClaimsLeft:     make([]frontend.Variable, n),
		ClaimsRight:    make([]frontend.Variable, n),
	}
	proof := sym.Of[nativegkr.Proof]("proof")
	sym.Assume(len(proof.SumcheckProofs) == n && len(proof.ClaimsLeft) == n && len(proof.ClaimsRight) == n)
	sym.Assume(!sym.Panics(func() { p.Assign(proof) }))
	p.Assign(proof)
	sym.Equal("left claims", p.ClaimsLeft, proof.ClaimsLeft)
	sym.Equal("right claims", p.ClaimsRight, proof.ClaimsRight)
	for k := range p.SumcheckProofs {
		sym.Holds("rounds", len(p.SumcheckProofs[k].HPolys) == len(proof.SumcheckProofs[k].PolyCoeffs))
		for i := range p.SumcheckProofs[k].HPolys {
			sym.Equal("coefficients", p.SumcheckProofs[k].HPolys[i].Coefficients, proof.SumcheckProofs[k].PolyCoeffs[i])
		}
	}
}

var _ fr.Element
