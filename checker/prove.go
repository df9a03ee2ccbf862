package main

import (
	"fmt"
	"math/big"
	"strings"
)

// ---------------------------------------------------------------------------
// Facts: what is known to hold where the analysis currently is

type factSet struct {
	list    []*Node
	truth   map[*Node]bool
	version int
	parent  *factSet
	ps      []*Node
	inst    map[[2]*Node][]*Node
	quant   []*quantFact
	qDone   bool
	absurd  bool // the facts contradict each other
}

// quantFact is a numeric fact about every index, and the arrays it speaks about
type quantFact struct {
	f     *Node
	heads []*Node
}

func (f *factSet) quantified() []*quantFact {
	if f.qDone {
		return f.quant
	}
	f.qDone = true
	for _, b := range f.list {
		if b.kind != KForAll || b.bv != 0 {
			continue
		}
		x := b.args[0]
		if x.kind == KNot {
			x = x.args[0]
		}
		if x.kind != KGe0 && !(x.kind == KEq0 && x.args[0].sort == SInt) {
			continue
		}
		q := &quantFact{f: b}
		walkNodes(x, func(y *Node) bool {
			if y.kind == KIdx && y.args[1] == b.args[1] && y.args[0].bv == 0 {
				q.heads = append(q.heads, y.args[0])
			}
			return true
		})
		if len(q.heads) > 0 {
			f.quant = append(f.quant, q)
		}
	}
	return f.quant
}

var facts = &factSet{truth: map[*Node]bool{}}
var factVersions = 1

// withFacts runs f knowing l
func withFacts(l []*Node, f func()) {
	old := facts
	// only what is new matters
	var fresh []*Node
	var add func(b *Node)
	add = func(b *Node) {
		switch b.kind {
		case KTrue:
		case KFalse:
			if !old.absurd {
				fresh = append(fresh, b)
			}
		case KAnd:
			for _, a := range b.args {
				add(a)
			}
		case KNot:
			if v, ok := old.truth[b.args[0]]; !ok || v {
				fresh = append(fresh, b)
			}
		default:
			if v, ok := old.truth[b]; !ok || !v {
				fresh = append(fresh, b)
			}
		}
	}
	for _, b := range l {
		add(b)
	}
	if len(fresh) == 0 {
		f()
		return
	}
	var key strings.Builder
	fmt.Fprintf(&key, "%d", old.version)
	for _, b := range fresh {
		fmt.Fprintf(&key, ",%d", b.id)
	}
	n, ok := factMemo[key.String()]
	if !ok {
		n = &factSet{list: append(append([]*Node{}, old.list...), fresh...), truth: map[*Node]bool{}}
		for k, v := range old.truth {
			n.truth[k] = v
		}
		n.absurd = old.absurd
		for _, b := range fresh {
			if b.kind == KFalse {
				n.absurd = true
			} else if b.kind == KNot {
				n.truth[b.args[0]] = false
			} else {
				n.truth[b] = true
			}
		}
		factVersions++
		n.version = factVersions
		// what the new facts say is read knowing the old ones
		n.ps = append(append([]*Node{}, old.ps...), (&factSet{list: fresh}).polys1()...)
		factMemo[key.String()] = n
	}
	facts = n
	defer func() { facts = old }()
	f()
}

// factMemo keeps the fact sets built so far, by their parent and what was added
var factMemo = map[string]*factSet{}

func factTruth(b *Node) (bool, bool) {
	if len(facts.truth) == 0 {
		return false, false
	}
	v, ok := facts.truth[b]
	return v, ok
}

// factPolys returns the polynomials known to be >= 0
func (f *factSet) polys() []*Node {
	return f.ps
}

func (f *factSet) polys1() []*Node {
	var r []*Node
	for _, b := range f.list {
		switch {
		case b.kind == KGe0:
			r = append(r, b.args[0])
		case b.kind == KNot && b.args[0].kind == KGe0:
			r = append(r, Sub(IntC(-1), b.args[0].args[0]))
		case b.kind == KEq0 && b.args[0].sort == SInt:
			r = append(r, b.args[0], Neg(b.args[0]))
		case b.kind == KNot && b.args[0].kind == KEq0 && b.args[0].args[0].sort == SInt:
			// a number of known sign that is not zero
			p := b.args[0].args[0]
			if nonneg(p) {
				r = append(r, Sub(p, IntC(1)))
			} else if nonneg(Neg(p)) {
				r = append(r, Sub(Neg(p), IntC(1)))
			}
		}
	}
	return r
}

// polysFor adds what quantified facts say about the elements p mentions
func (f *factSet) polysFor(p *Node) []*Node {
	r := f.polys()
	if instantiating || len(f.quantified()) == 0 {
		return r
	}
	r = append([]*Node{}, r...)
	for _, q := range f.quantified() {
		done := map[*Node]bool{}
		for _, t := range termsOf(p) {
			for _, fa := range t.M {
				a := fa.A
				if a.kind != KIdx || a.bv != 0 || done[a.args[1]] {
					continue
				}
				for _, h := range q.heads {
					if h == a.args[0] {
						done[a.args[1]] = true
						r = append(r, f.instance(q.f, a.args[1])...)
						break
					}
				}
			}
		}
	}
	return r
}

func (f *factSet) instance(b, i *Node) []*Node {
	k := [2]*Node{b, i}
	if r, ok := f.inst[k]; ok {
		return r
	}
	if f.inst == nil {
		f.inst = map[[2]*Node][]*Node{}
	}
	f.inst[k] = nil
	instantiating = true
	defer func() { instantiating = false }()
	if nonneg(i) && nonneg(Sub(Sub(b.args[2], IntC(1)), i)) {
		x := Subst(b.args[0], map[*Node]*Node{b.args[1]: i})
		f.inst[k] = (&factSet{list: conjuncts(x)}).polys1()
	}
	return f.inst[k]
}

var instantiating bool

func conjuncts(b *Node) []*Node {
	if b.kind == KAnd {
		var l []*Node
		for _, x := range b.args {
			l = append(l, conjuncts(x)...)
		}
		return l
	}
	return []*Node{b}
}

type nnKey struct{ p, v int }

var nnMemo = map[nnKey]bool{}

// nonneg proves p >= 0 (false means unknown)
func nonneg(p *Node) bool {
	if c, ok := constOf(p); ok {
		return c.Sign() >= 0
	}
	k := nnKey{p.id, 2 * facts.version}
	if instantiating {
		k.v++
	}
	if v, ok := nnMemo[k]; ok {
		return v
	}
	nnMemo[k] = false // cuts recursion
	r := (&prover{fuel: 400}).nonneg(p, 5)
	nnMemo[k] = r
	return r
}

type prover struct{ fuel int }

func p2Exponent(m []Factor) (*Node, []Factor) {
	e := IntC(0)
	var rest []Factor
	for _, f := range m {
		if f.A.kind == KP2 {
			e = Add(e, Scale(big.NewRat(int64(f.E), 1), f.A.args[0]))
		} else {
			rest = append(rest, f)
		}
	}
	return e, rest
}

func (pr *prover) atomNonneg(a *Node, depth int) bool {
	switch a.kind {
	case KP2, KInd:
		return true
	case KSym:
		return a.info != nil && (a.info.nat || (a.info.lo != nil && a.info.lo != a && depth > 0 && pr.nonneg(a.info.lo, depth-1)))
	case KApp:
		if strings.HasPrefix(a.name, permName) || strings.HasPrefix(a.name, unpermName) {
			return depth > 0 && pr.nonneg(a.args[0], depth-1)
		}
		switch a.name {
		case "len", "log2ceil", "log2floor", "pow2", "cap":
			return true
		}
		return natApps[a.name]
	case KIdx:
		// lengths stored in arrays
		return natArray(a.args[0])
	case KIter:
		return natIter(a)
	case KDiv:
		return depth > 0 && pr.nonneg(a.args[0], depth-1)
	case KSum, KProd:
		if depth <= 0 {
			return false
		}
		_, body := openSum(a)
		return pr.nonneg(body, depth-1)
	case KPoly:
		return depth > 0 && pr.nonneg(a, depth-1)
	}
	return false
}

var natIters = map[*Node]bool{}

// natIter shows by induction that a single recurrence is never negative
func natIter(a *Node) bool {
	if v, ok := natIters[a]; ok {
		return v
	}
	natIters[a] = false
	if a.n != 1 || a.sort != SInt || a.bv != 0 {
		return false
	}
	it := openIter(a)
	if c, ok := constOf(it.init[0]); !ok || c.Sign() < 0 {
		return false
	}
	it.phi[0].info = &SymInfo{nat: true}
	var cases func(x *Node, depth int) bool
	cases = func(x *Node, depth int) bool {
		if nonneg(x) {
			return true
		}
		c := indicatorIn(x)
		if c == nil || depth == 0 {
			return false
		}
		for _, h := range []*Node{c, Not(c)} {
			ok := false
			withFacts([]*Node{h}, func() { ok = cases(Rebuild(x), depth-1) })
			if !ok {
				return false
			}
		}
		return true
	}
	natIters[a] = cases(it.step[0], 3)
	return natIters[a]
}

var natApps = map[string]bool{}
var natArrays = map[string]bool{}

func natArray(a *Node) bool {
	for a.kind == KIdx {
		a = a.args[0]
	}
	return a.kind == KSym && natArrays[a.name]
}

func (pr *prover) monoNonneg(m []Factor, depth int) bool {
	for _, f := range m {
		if f.E%2 == 0 {
			continue
		}
		if !pr.atomNonneg(f.A, depth) {
			return false
		}
	}
	return true
}

func (pr *prover) nonneg(p *Node, depth int) bool {
	if c, ok := constOf(p); ok {
		return c.Sign() >= 0
	}
	pr.fuel--
	if depth < 0 || pr.fuel < 0 {
		return false
	}
	ts := termsOf(p)
	all := true
	for _, t := range ts {
		if t.C.Sign() < 0 || !pr.monoNonneg(t.M, depth) {
			all = false
			break
		}
	}
	if all {
		return true
	}
	// Powers of two: 2^a R - 2^b R >= 0 when a >= b
	for i, t := range ts {
		if t.C.Sign() >= 0 {
			continue
		}
		ei, ri := p2Exponent(t.M)
		for j, u := range ts {
			if u.C.Sign() <= 0 || i == j {
				continue
			}
			ej, rj := p2Exponent(u.M)
			if isZero(ej) || factorsKey(ri) != factorsKey(rj) || !pr.monoNonneg(ri, depth) {
				continue
			}
			if pr.nonneg(Sub(ej, ei), depth-1) && !isZero(Sub(ej, ei)) {
				// replace 2^ej by 2^ei
				acc := newAcc(SInt)
				for l, w := range ts {
					if l == j {
						acc.addNode(u.C, Mul(P2(ei), monoNode(SInt, rj)))
					} else {
						acc.add(w.C, w.M)
					}
				}
				if pr.nonneg(acc.node(), depth-1) {
					return true
				}
			}
			// constants: c1 2^a - c2 with 2^a >= 2 when a >= 1 ...
		}
	}
	// A C + R with A >= 0 and C of known sign
	if depth > 2 {
		for _, t := range ts {
			if t.C.Sign() >= 0 || len(t.M) < 2 {
				continue
			}
			for _, f := range t.M {
				if f.E != 1 || f.A.kind == KP2 || f.A.kind == KInd || !pr.atomNonneg(f.A, depth-1) {
					continue
				}
				c, rest := newAcc(SInt), newAcc(SInt)
				n := 0
				linear := true
				for _, u := range ts {
					for _, g := range u.M {
						linear = linear && (g.A != f.A || g.E == 1)
					}
					m := withoutFactor(u.M, f.A)
					if len(m) == len(u.M)-1 {
						c.add(u.C, m)
						n++
					} else {
						rest.add(u.C, u.M)
					}
				}
				cn := c.node()
				if n < 2 || !linear || contains(cn, f.A) {
					continue
				}
				if pr.nonneg(Sub(cn, IntC(1)), depth-2) && pr.nonneg(Add(rest.node(), f.A), depth-1) || pr.nonneg(cn, depth-2) && pr.nonneg(rest.node(), depth-1) {
					return true
				}
			}
		}
	}
	// monotone functions: B(j) - B(i) >= 0 when j >= i
	for i, t := range ts {
		if t.C.Sign() >= 0 {
			continue
		}
		for _, f := range t.M {
			if !isMonotone(f.A) || f.E != 1 {
				continue
			}
			for j, u := range ts {
				if u.C.Sign() <= 0 || i == j {
					continue
				}
				for _, g := range u.M {
					if g.E != 1 || !monoSame(f.A, g.A) || factorsKey(withoutFactor(t.M, f.A)) != factorsKey(withoutFactor(u.M, g.A)) {
						continue
					}
					if !pr.monoNonneg(withoutFactor(t.M, f.A), depth) || !pr.nonneg(Sub(g.A.args[2], f.A.args[2]), depth-1) {
						continue
					}
					acc := newAcc(SInt)
					for l, w := range ts {
						if l == j {
							acc.add(w.C, t.M)
						} else {
							acc.add(w.C, w.M)
						}
					}
					if pr.nonneg(acc.node(), depth-1) {
						return true
					}
				}
			}
		}
	}
	// Range of the atoms
	seen := map[*Node]bool{}
	for _, t := range ts {
		for _, f := range t.M {
			a := f.A
			if seen[a] || f.E != 1 {
				continue
			}
			seen[a] = true
			lo, hi := bounds(a)
			if lo == nil && hi == nil {
				continue
			}
			c, rest, ok := coefPoly(p, a)
			if !ok {
				continue
			}
			if lo != nil && !contains(lo, a) && pr.nonneg(c, depth-1) {
				if pr.nonneg(Add(rest, Mul(c, lo)), depth-1) {
					return true
				}
			}
			if hi != nil && !contains(hi, a) && pr.nonneg(Neg(c), depth-1) {
				if pr.nonneg(Add(rest, Mul(c, hi)), depth-1) {
					return true
				}
			}
		}
	}
	for _, q := range facts.polysFor(p) {
		if q == p {
			return true
		}
	}
	if depth >= 2 {
		for _, q := range facts.polysFor(p) {
			if !shareAtom(p, q) {
				continue
			}
			if pr.nonneg(Sub(p, q), depth-2) {
				return true
			}
		}
	}
	return false
}

func shareAtom(p, q *Node) bool {
	s := map[*Node]bool{}
	for _, t := range termsOf(p) {
		for _, f := range t.M {
			s[f.A] = true
		}
	}
	for _, t := range termsOf(q) {
		for _, f := range t.M {
			if s[f.A] {
				return true
			}
		}
	}
	return false
}

// bounds returns inclusive bounds of an atom
func bounds(a *Node) (lo, hi *Node) {
	switch a.kind {
	case KSym:
		if a.info == nil {
			return nil, nil
		}
		if a.info.lo != nil {
			lo = a.info.lo
		} else if a.info.nat {
			lo = IntC(0)
		}
		if a.info.hi != nil {
			hi = Sub(a.info.hi, IntC(1))
		}
	case KP2:
		if e := a.args[0]; e.kind == KApp && e.name == "log2floor" && nonneg(Sub(e.args[0], IntC(1))) {
			// 2^log2floor(x) <= x < 2^(log2floor(x)+1)
			lo = Scale(big.NewRat(1, 2), Add(e.args[0], IntC(1)))
			hi = e.args[0]
			return
		}
		if nonneg(a.args[0]) {
			lo = IntC(1)
		} else {
			lo = IntC(0)
		}
	case KInd:
		lo, hi = IntC(0), IntC(1)
	case KDiv:
		if nonneg(a.args[0]) {
			lo = IntC(0)
		}
		if ts := termsOf(a.args[1]); len(ts) == 1 {
			ok := true
			for _, f := range ts[0].M {
				if f.A.kind != KP2 {
					ok = false
				}
			}
			if ok {
				inv := Scale(new(big.Rat).Inv(ts[0].C), Const(SInt, ratOne))
				for _, f := range ts[0].M {
					inv = Mul(inv, monoNode(SInt, []Factor{{f.A, -f.E}}))
				}
				hi = Mul(a.args[0], inv)
			}
		}
	case KApp, KIdx:
		if isMonotone(a) {
			return IntC(0), a.args[1]
		}
		if (&prover{fuel: 50}).atomNonneg(a, 2) {
			lo = IntC(0)
		}
	}
	return lo, hi
}

// coefPoly writes p = c*a + rest with a linear in p
func coefPoly(p, a *Node) (*Node, *Node, bool) {
	cf, rest := newAcc(p.sort), newAcc(p.sort)
	for _, t := range termsOf(p) {
		found := false
		var m []Factor
		for _, f := range t.M {
			if f.A == a {
				if f.E != 1 {
					return nil, nil, false
				}
				found = true
				continue
			}
			if contains(f.A, a) {
				return nil, nil, false
			}
			m = append(m, f)
		}
		if found {
			cf.add(t.C, m)
		} else {
			rest.add(t.C, m)
		}
	}
	return cf.node(), rest.node(), true
}

func withoutFactor(m []Factor, a *Node) []Factor {
	var r []Factor
	for _, f := range m {
		if f.A != a {
			r = append(r, f)
		}
	}
	return r
}
