package circuitspec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// wired is an arbitrary layer whose wires stay within its dimensions
func wired(bI, bO int) circuit.Layer {
	l := circuit.Layer{Wires: sym.Of[[]circuit.Wire]("wires"), Gates: sym.Of[[]circuit.Gate]("gates"), BGInputs: bI, BGOutputs: bO}
	sym.Assume(sym.ForAll(len(l.Wires), func(i int) bool {
		w := l.Wires[i]
		return 0 <= w.L && w.L < sym.Pow2(bI) && 0 <= w.R && w.R < sym.Pow2(bI) && 0 <= w.O && w.O < sym.Pow2(bO)
	}))
	return l
}

// Evaluate adds, for every wire and every instance, the gate applied to its operands to its output
//verif:for P04 P10 P13 P18
func Evaluate() {
	bI, bO, n, chunks, nCore := sym.Nat("bI"), sym.Nat("bO"), sym.Nat("n"), sym.Nat("chunks"), sym.Pos("nCore")
	l := wired(bI, bO)
	inputs := sym.Slice2[[][]fr.Element]("inputs", chunks, sym.Pow2(bI)*n)
	x := sym.Slice2[[][]fr.Element]("inputs", chunks, sym.Pow2(bI)*n)
	got := l.Evaluate(inputs, nCore)
	sym.Holds("number of chunks", len(got) == chunks)
	want := make([][]fr.Element, chunks)
	for k := range want {
		want[k] = make([]fr.Element, sym.Pow2(bO)*n)
		for o := 0; o < sym.Pow2(bO); o++ {
			for h := 0; h < n; h++ {
				want[k][o*n+h] = sym.Sum(len(l.Wires), func(i int) fr.Element {
					w := l.Wires[i]
					var v fr.Element
					if w.O == o {
						w.Gate.Eval(&v, &x[k][w.L*n+h], &x[k][w.R*n+h])
					}
					return v
				})
			}
		}
	}
	sym.Equal("outputs", got, want)
	sym.Equal("inputs are unchanged", inputs, x)
	sym.Fresh("outputs are new", got, inputs)
}

// StaticTable counts the wires of a gate between every pair of inputs and every output
//verif:for P01 P04 P10 P18
func StaticTable() {
	bI, bO, m := sym.Nat("bI"), sym.Nat("bO"), sym.Nat("m")
	l := wired(bI, bO)
	sym.Assume(m <= bO)
	q := sym.Slice[[]fr.Element]("q", m)
	got := l.GetStaticTable(q)
	sym.Holds("one table per gate", len(got) == len(l.Gates))
	var one fr.Element
	one.SetOne()
	g := sym.Pow2(bI)
	for i := range l.Gates {
		want := make([]fr.Element, sym.Pow2(bO)*g*g)
		for o := 0; o < sym.Pow2(bO); o++ {
			for a := 0; a < g; a++ {
				for b := 0; b < g; b++ {
					n := sym.Sum(len(l.Wires), func(k int) fr.Element {
						w := l.Wires[k]
						var v fr.Element
						if w.O == o && w.L == a && w.R == b && w.Gate.ID() == l.Gates[i].ID() {
							v = one
						}
						return v
					})
					at := &want[o*g*g+a*g+b]
					at.Add(at, &n)
				}
			}
		}
		t := polynomial.NewBookKeepingTable(want)
		for j := range q {
			t.Fold(q[j])
		}
		sym.Equal("table", got[i].Table, t.Table)
	}
	sym.Equal("the layer is unchanged", l, wired(bI, bO))
	sym.Equal("the point is unchanged", q, sym.Slice[[]fr.Element]("q", m))
}

// BGOutputs is the least number of bits that numbers every output
//verif:for P04 P18
func Sizes() {
	wires := sym.Of[[]circuit.Wire]("wires")
	o, in := 0, 0
	for i := range wires {
		if wires[i].O > o {
			o = wires[i].O
		}
	}
	for i := range wires {
		if wires[i].L > in {
			in = wires[i].L
		}
		if wires[i].R > in {
			in = wires[i].R
		}
	}
	sym.Equal("outputs", circuit.BGOutputs(wires), common.Log2Ceil(o+1))
	sym.Equal("inputs", circuit.BGInputs(wires), common.Log2Ceil(in+1))
}

// NewLayer describes its wires
//verif:for P04 P10 P18
//verif:opaque circuit.Gates circuit.BGInputs circuit.BGOutputs
func NewLayer() {
	wires := sym.Of[[]circuit.Wire]("wires")
	l := circuit.NewLayer(wires)
	sym.Equal("wires", l.Wires, wires)
	sym.Equal("gates", l.Gates, circuit.Gates(wires))
	sym.Equal("inputs", l.BGInputs, circuit.BGInputs(wires))
	sym.Equal("outputs", l.BGOutputs, circuit.BGOutputs(wires))
	sym.Equal("the wires are unchanged", wires, sym.Of[[]circuit.Wire]("wires"))
}

// NewCircuit makes a layer of every list of wires
//verif:for P04 P18
//verif:opaque circuit.NewLayer
func NewCircuit() {
	wiring := sym.Of[[][]circuit.Wire]("wiring")
	c := circuit.NewCircuit(wiring)
	sym.Holds("layers", len(c.Layers) == len(wiring))
	for i := range wiring {
		sym.Equal("layer", c.Layers[i], circuit.NewLayer(wiring[i]))
	}
}

// Assign evaluates the layers one after the other
//verif:for P04 P10 P13 P18
//verif:opaque circuit.Layer.Evaluate
func Assign() {
	c := sym.Of[circuit.Circuit]("circuit")
	inputs := sym.Of[[][]fr.Element]("inputs")
	nCore := sym.Pos("nCore")
	a := c.Assign(inputs, nCore)
	sym.Holds("layers", len(a.Values) == len(c.Layers)+1)
	sym.Equal("inputs", a.Values[0], inputs)
	want := make([][][]fr.Element, len(c.Layers)+1)
	cur := inputs
	for i := range c.Layers {
		want[i] = cur
		cur = c.Layers[i].Evaluate(cur, nCore)
	}
	want[len(c.Layers)] = cur
	sym.Equal("layers", a.Values, want)
	sym.Equal("the inputs are unchanged", inputs, sym.Of[[][]fr.Element]("inputs"))
	sym.Equal("the circuit is unchanged", c, sym.Of[circuit.Circuit]("circuit"))
}

// Copies of the layers
//verif:for P04 P10 P13 P18
func LayerAsTables() {
	a := sym.Of[circuit.Assignment]("assignment")
	layer, nCore := sym.Nat("layer"), sym.Pos("nCore")
	sym.Assume(layer < len(a.Values))
	want := sym.Of[circuit.Assignment]("assignment").Values[layer]
	got := a.LayerAsBKTWithCopy(layer, nCore)
	sym.Holds("number of chunks", len(got) == len(want))
	for i := range want {
		sym.Equal("chunk", got[i].Table, want[i])
	}
	sym.Fresh("the copy is deep", got, a)
	sym.Equal("the assignment is unchanged", a, sym.Of[circuit.Assignment]("assignment"))
	same := a.LayerAsBKTNoCopy(layer)
	sym.Holds("number of chunks", len(same) == len(want))
	for i := range want {
		sym.Equal("chunk", same[i].Table, want[i])
	}
}

// Gates lists the gate of every wire whose gate no earlier wire has
//verif:for P01 P04 P18
func Gates() {
	wires := sym.Of[[]circuit.Wire]("wires")
	got := circuit.Gates(wires)
	var want []circuit.Gate
	for k := range wires {
		first := sym.ForAll(k, func(j int) bool { return wires[j].Gate.ID() != wires[k].Gate.ID() })
		if first {
			want = append(want, wires[k].Gate)
		}
	}
	sym.Equal("gates", got, want)
}
