package sumcheckspec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// instance is an arbitrary partially folded sumcheck instance: a values of hL, b values of hR and n values of h'
type instance struct {
	vL, vR, eq polynomial.BookKeepingTable
	gates      []circuit.Gate
	statics    []polynomial.BookKeepingTable
}

// arbitrary is an instance whose tables have the given sizes; the static tables have s entries
func arbitrary(nL, nR, n, s int) instance {
	gates := sym.Of[[]circuit.Gate]("gates")
	rows := sym.Slice2[[][]fr.Element]("statics", len(gates), s)
	statics := make([]polynomial.BookKeepingTable, len(gates))
	for i := range statics {
		statics[i] = polynomial.NewBookKeepingTable(rows[i])
	}
	return instance{
		vL:      polynomial.NewBookKeepingTable(sym.Slice[[]fr.Element]("vL", nL)),
		vR:      polynomial.NewBookKeepingTable(sym.Slice[[]fr.Element]("vR", nR)),
		eq:      polynomial.NewBookKeepingTable(sym.Slice[[]fr.Element]("eq", n)),
		gates:   gates,
		statics: statics,
	}
}

func (x instance) prover() sumcheck.SingleThreadedProver {
	return sumcheck.NewSingleThreadedProver(x.vL, x.vR, x.eq, x.gates, x.statics)
}

// gate is eq static gate_i(l, r)
func (x instance) term(i int, static, eq, l, r fr.Element) fr.Element {
	var v fr.Element
	x.gates[i].Eval(&v, &l, &r)
	v.Mul(&v, &static)
	v.Mul(&v, &eq)
	return v
}

// GetClaim is the sum over all (hL, hR, h') of the combinator
//verif:for P04 P20
func GetClaim() {
	n, g := sym.Pos("n"), sym.Pos("g")
	x := arbitrary(g*n, g*n, n, g*g)
	p := x.prover()
	want := sym.Sum(len(x.gates), func(i int) fr.Element {
		return sym.Sum(g, func(hL int) fr.Element {
			return sym.Sum(g, func(hR int) fr.Element {
				return sym.Sum(n, func(h int) fr.Element {
					return x.term(i, x.statics[i].Table[hL*g+hR], x.eq.Table[h], x.vL.Table[hL*n+h], x.vR.Table[hR*n+h])
				})
			})
		})
	})
	got := p.GetClaim()
	sym.Equal("claim", got, want)
	sym.Equal("the tables are unchanged", x, arbitrary(g*n, g*n, n, g*g))
}

// line is the value at t of the line through a at 0 and b at 1
func line(a, b fr.Element, t int) fr.Element {
	b.Sub(&b, &a)
	var x fr.Element
	x.SetUint64(uint64(t))
	b.Mul(&b, &x)
	b.Add(&b, &a)
	return b
}

// degree is one more than the largest degree of the gates
func degree(gates []circuit.Gate, of func(g circuit.Gate) int) int {
	d := 0
	for i := range gates {
		if x := of(gates[i]); x > d {
			d = x
		}
	}
	return d + 1
}

// EvalsOnHL are the values of the round polynomial of the first variable of hL, at 0, 1, ..., degree
//verif:for P04 P07 P20
func EvalsOnHL() {
	n, g, m := sym.Pos("n"), sym.Pos("g"), sym.Pos("m")
	x := arbitrary(2*m*n, g*n, n, 2*m*g)
	sym.Assume(len(x.gates) > 0)
	p := x.prover()
	d := degree(x.gates, func(g circuit.Gate) int { d, _, _ := g.Degrees(); return d })
	want := make([]fr.Element, d+1)
	for t := range want {
		want[t] = sym.Sum(len(x.gates), func(i int) fr.Element {
			return sym.Sum(m, func(hL int) fr.Element {
				return sym.Sum(g, func(hR int) fr.Element {
					return sym.Sum(n, func(h int) fr.Element {
						s, l := x.statics[i].Table, x.vL.Table
						return x.term(i, line(s[hL*g+hR], s[(hL+m)*g+hR], t), x.eq.Table[h], line(l[hL*n+h], l[(hL+m)*n+h], t), x.vR.Table[hR*n+h])
					})
				})
			})
		})
	}
	got := p.GetEvalsOnHL()
	sym.Equal("evaluations", got, want)
	sym.Equal("the tables are unchanged", x, arbitrary(2*m*n, g*n, n, 2*m*g))
}

// EvalsOnHR are the values of the round polynomial of the first variable of hR, once hL is folded
//verif:for P04 P07 P20
func EvalsOnHR() {
	n, m := sym.Pos("n"), sym.Pos("m")
	x := arbitrary(n, 2*m*n, n, 2*m)
	p := x.prover()
	d := degree(x.gates, func(g circuit.Gate) int { _, d, _ := g.Degrees(); return d })
	want := make([]fr.Element, d+1)
	for t := range want {
		want[t] = sym.Sum(len(x.gates), func(i int) fr.Element {
			return sym.Sum(m, func(hR int) fr.Element {
				return sym.Sum(n, func(h int) fr.Element {
					s, r := x.statics[i].Table, x.vR.Table
					return x.term(i, line(s[hR], s[hR+m], t), x.eq.Table[h], x.vL.Table[h], line(r[hR*n+h], r[(hR+m)*n+h], t))
				})
			})
		})
	}
	got := p.GetEvalsOnHR()
	sym.Equal("evaluations", got, want)
	sym.Equal("the tables are unchanged", x, arbitrary(n, 2*m*n, n, 2*m))
}

// EvalsOnHPrime are the values of the round polynomial of the first variable of h', once hL and hR are folded
//verif:for P04 P07 P20 P22
func EvalsOnHPrime() {
	m := sym.Pos("m")
	x := arbitrary(2*m, 2*m, 2*m, 1)
	p := x.prover()
	d := degree(x.gates, func(g circuit.Gate) int { _, _, d := g.Degrees(); return d })
	want := make([]fr.Element, d+1)
	for t := range want {
		want[t] = sym.Sum(len(x.gates), func(i int) fr.Element {
			return sym.Sum(m, func(h int) fr.Element {
				e, l, r := x.eq.Table, x.vL.Table, x.vR.Table
				return x.term(i, x.statics[i].Table[0], line(e[h], e[h+m], t), line(l[h], l[h+m], t), line(r[h], r[h+m], t))
			})
		})
	}
	got := p.GetEvalsOnHPrime()
	sym.Equal("evaluations", got, want)
	sym.Equal("the tables are unchanged", x, arbitrary(2*m, 2*m, 2*m, 1))
}
