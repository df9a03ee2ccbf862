package main

import (
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Sums, products and quantifiers over [0,n)

func openBinders(n *Node) ([]*Node, map[*Node]*Node) {
	sub := map[*Node]*Node{}
	var bs []*Node
	for i := 0; i < n.n; i++ {
		hi := n.args[2+2*i]
		if len(sub) > 0 {
			hi = Subst(hi, sub)
		}
		k := loopSym("k", hi)
		sub[n.args[1+2*i]] = k
		bs = append(bs, k)
	}
	return bs, sub
}

func openSum(n *Node) ([]*Node, *Node) {
	bs, sub := openBinders(n)
	return bs, rename(n.args[0], sub)
}

func openForAll(n *Node) (*Node, *Node) {
	bs, sub := openBinders(n)
	return bs[0], rename(n.args[0], sub)
}

// closeBinders builds a binder node
func closeBinders(kind Kind, s Sort, bs []*Node, body *Node) *Node {
	l := body.hb
	for _, b := range bs {
		if b.info.hi.hb > l {
			l = b.info.hi.hb
		}
	}
	for {
		sub := map[*Node]*Node{}
		args := []*Node{nil}
		var mask uint64
		for i, b := range bs {
			v := bvar(l+len(bs)-1-i, b.sort, Sig{})
			mask |= 1 << uint(v.n)
			hi := b.info.hi
			if len(sub) > 0 {
				hi = Subst(hi, sub)
			}
			sub[b] = v
			args = append(args, v, hi)
		}
		args[0] = Subst(body, sub)
		again := false
		for _, a := range args {
			if a.kind != KBVar && a.hb > l {
				l = a.hb
				again = true
			}
		}
		if again {
			continue
		}
		return intern(&Node{kind: kind, sort: s, n: len(bs), args: args}).withBinder(mask, l+len(bs))
	}
}

func mkSum(k, body *Node) *Node {
	s := body.sort
	if r := telescope(k, body); r != nil {
		return r
	}
	if r := telescope1(k, body); r != nil {
		return r
	}
	acc := newAcc(s)
	for _, t := range termsOf(body) {
		acc.addNode(t.C, sumMono(s, []*Node{k}, t.M))
	}
	return acc.node()
}

func sumOver(s Sort, bs []*Node, body *Node) *Node {
	if len(bs) == 1 {
		if r := telescope1(bs[0], body); r != nil {
			return r
		}
	}
	acc := newAcc(s)
	for _, t := range termsOf(body) {
		acc.addNode(t.C, sumMono(s, bs, t.M))
	}
	return acc.node()
}

// telescope1 sums f(k+1)-f(k), for an f made of conditions
func telescope1(k, body *Node) *Node {
	ts := termsOf(body)
	if len(ts) < 2 || !nonneg(k.info.hi) {
		return nil
	}
	var at []int
	for i, t := range ts {
		on := 0
		for _, f := range t.M {
			if contains(f.A, k) {
				if on++; f.A.kind != KInd {
					on = 2
				}
			}
		}
		if on == 1 {
			at = append(at, i)
		}
	}
	for _, i := range at {
		for _, j := range at {
			if i == j || new(big.Rat).Add(ts[i].C, ts[j].C).Sign() != 0 || len(ts[i].M) != len(ts[j].M) {
				continue
			}
			f := monoNode(body.sort, ts[j].M)
			if Subst(f, map[*Node]*Node{k: Add(k, IntC(1))}) != monoNode(body.sort, ts[i].M) {
				continue
			}
			d := Sub(Subst(f, map[*Node]*Node{k: k.info.hi}), Subst(f, map[*Node]*Node{k: IntC(0)}))
			acc := newAcc(body.sort)
			for l, t := range ts {
				if l != i && l != j {
					acc.addNode(t.C, monoNode(body.sort, t.M))
				}
			}
			return Add(Scale(ts[i].C, d), mkSum(k, acc.node()))
		}
	}
	return nil
}

func dependsOn(m []Factor, k *Node) bool {
	for _, f := range m {
		if contains(f.A, k) {
			return true
		}
	}
	return false
}

func i2(s Sort, n *Node) *Node {
	if s == SField {
		return I2F(n)
	}
	return n
}

// substBinders renames binder k into val in the other binders' ranges and in m
func replaceBinder(bs []*Node, i int, val *Node) ([]*Node, map[*Node]*Node) {
	sub := map[*Node]*Node{bs[i]: val}
	var out []*Node
	for j, b := range bs {
		if j == i {
			continue
		}
		if contains(b.info.hi, bs[i]) || anyKey(b.info.hi, sub) {
			nb := loopSym("k", Subst(b.info.hi, sub))
			sub[b] = nb
			out = append(out, nb)
			continue
		}
		out = append(out, b)
	}
	return out, sub
}

func anyKey(n *Node, m map[*Node]*Node) bool {
	for k := range m {
		if contains(n, k) {
			return true
		}
	}
	return false
}

func substFactors(s Sort, m []Factor, skip int, sub map[*Node]*Node) *Node {
	r := Const(s, ratOne)
	var keep []Factor
	for j, f := range m {
		if j == skip {
			continue
		}
		if !anyKey(f.A, sub) {
			keep = append(keep, f)
		}
	}
	r = Mul(r, monoNode(s, keep))
	for j, f := range m {
		if j == skip || !anyKey(f.A, sub) {
			continue
		}
		r = Mul(r, Subst(factorNode(s, f), sub))
	}
	return r
}

var sumDepth int

func sumMono(s Sort, bs []*Node, m []Factor) *Node {
	sumDepth++
	defer func() { sumDepth-- }()
	if sumDepth > 60 {
		fail("sum normalisation too deep")
	}
	if len(bs) == 0 {
		return monoNode(s, m)
	}
	// nested sums depending on a binder are merged
	for j, f := range m {
		if f.A.kind != KSum || !containsAny(f.A, bs) {
			continue
		}
		body := monoNode(s, removeFactor(m, j))
		nbs := bs
		for e := 0; e < f.E; e++ {
			ks, b := openSum(f.A)
			nbs = append(append([]*Node{}, nbs...), ks...)
			body = Mul(body, b)
		}
		return sumOver(s, nbs, body)
	}
	// independent factors
	var in, out []Factor
	for _, f := range m {
		if containsAny(f.A, bs) {
			in = append(in, f)
		} else {
			out = append(out, f)
		}
	}
	if len(out) > 0 {
		return Mul(monoNode(s, out), sumMono(s, bs, in))
	}
	// binders that are not used
	for i := len(bs) - 1; i >= 0; i-- {
		k := bs[i]
		used := dependsOn(m, k)
		for j, b := range bs {
			if j != i && contains(b.info.hi, k) {
				used = true
			}
		}
		if !used {
			rest := append(append([]*Node{}, bs[:i]...), bs[i+1:]...)
			body := Mul(i2(s, k.info.hi), monoNode(s, m))
			return sumOver(s, rest, body)
		}
	}
	// binders with a single value, or none
	for i, k := range bs {
		if c, ok := constOf(k.info.hi); ok {
			if c.Sign() <= 0 {
				return Const(s, ratZero)
			}
			if c.Cmp(ratOne) == 0 {
				rest, sub := replaceBinder(bs, i, IntC(0))
				return sumOver(s, rest, substFactors(s, m, -1, sub))
			}
			if c.IsInt() && c.Num().Int64() <= unrollMax {
				acc := newAcc(s)
				for v := int64(0); v < c.Num().Int64(); v++ {
					rest, sub := replaceBinder(bs, i, IntC(v))
					acc.addNode(ratOne, sumOver(s, rest, substFactors(s, m, -1, sub)))
				}
				return acc.node()
			}
		}
	}
	// equalities
	for j, f := range m {
		if f.A.kind != KInd || f.A.args[0].kind != KEq0 {
			continue
		}
		p := f.A.args[0].args[0]
		if p.sort != SInt {
			continue
		}
		for i := len(bs) - 1; i >= 0; i-- {
			k := bs[i]
			val, integral, ok := solveFor(p, k)
			if !ok || !integral {
				continue
			}
			var guard *Node
			if q := mkDiv(val, k.info.hi); q.kind != KDiv && !isZero(q) && divides(val, k.info.hi) {
				guard = Ind(mkEq0(q), s)
				val = Sub(val, Mul(k.info.hi, q))
				// where the guard holds, val is its residue
			} else {
				guard = Mul(Ind(mkGe0(val), s), Ind(Lt(val, k.info.hi), s))
			}
			nbs, sub := replaceBinder(bs, i, val)
			g := guard
			if anyKey(g, sub) {
				g = Subst(g, sub)
			}
			var body *Node
			withFactsIf(guardFacts(val, k.info.hi), func() {
				body = substFactors(s, m, j, sub)
			})
			return sumOver(s, nbs, Mul(g, body))
		}
	}
	// range restrictions
	for j, f := range m {
		if f.A.kind != KInd || f.A.args[0].kind != KGe0 {
			continue
		}
		p := f.A.args[0].args[0]
		for i, k := range bs {
			c, rest, ok := linearAtom(p, k)
			if !ok || c.Num().CmpAbs(c.Denom()) != 0 {
				continue
			}
			hi := k.info.hi
			if c.Sign() < 0 {
				// k <= rest
				nh := Add(rest, IntC(1))
				if nonneg(nh) && nonneg(Sub(hi, nh)) {
					nk := loopSym("k", nh)
					nbs, sub := replaceBinder(bs, i, nk)
					nbs = insertBinder(nbs, i, nk)
					return sumOver(s, nbs, substFactors(s, m, j, sub))
				}
			} else {
				// k >= -rest
				lo := Neg(rest)
				if nonneg(lo) && nonneg(Sub(hi, lo)) {
					nk := loopSym("k", Sub(hi, lo))
					nbs, sub := replaceBinder(bs, i, Add(nk, lo))
					nbs = insertBinder(nbs, i, nk)
					return sumOver(s, nbs, substFactors(s, m, j, sub))
				}
			}
		}
	}
	// a sum over (c, i) of what depends on c + C·i only, c ranging over 0..C-1
	for ci, c := range bs {
		for ii, i := range bs {
			if ci == ii || containsAny(c.info.hi, bs) || containsAny(i.info.hi, bs) || !together(m, c, i) {
				continue
			}
			x := loopSym("k", Mul(c.info.hi, i.info.hi))
			nbs, sub := replaceBinder(bs, ci, Sub(x, Mul(c.info.hi, i)))
			if len(nbs) != len(bs)-1 || nbs[indexOf(nbs, i)] != i {
				continue
			}
			if body := substFactors(s, m, -1, sub); !contains(body, i) {
				at := indexOf(nbs, i)
				nbs = append(append([]*Node{}, nbs[:at]...), nbs[at+1:]...)
				return sumOver(s, insertBinder(nbs, at, x), body)
			}
		}
	}
	// mixed radix: k div m occurs and the range of k is a multiple of m
	for i, k := range bs {
		if d := findDiv(m, k); d != nil {
			q := mkDiv(k.info.hi, d)
			if isZero(Sub(k.info.hi, Mul(q, d))) && q.kind != KDiv {
				k1, k2 := loopSym("k", q), loopSym("k", d)
				nbs, sub := replaceBinder(bs, i, Add(Mul(k1, d), k2))
				nbs = insertBinder(insertBinder(nbs, i, k2), i, k1)
				return sumOver(s, nbs, substFactors(s, m, -1, sub))
			}
		}
	}
	// connected components
	comp := components(bs, m)
	if len(comp) > 1 {
		r := Const(s, ratOne)
		for _, c := range comp {
			var mm []Factor
			for _, f := range m {
				if containsAny(f.A, c) {
					mm = append(mm, f)
				}
			}
			r = Mul(r, sumMono(s, c, mm))
		}
		return r
	}
	return canonBinders(KSum, s, bs, monoNode(s, m))
}

// together tells that a and b only occur together
func together(m []Factor, a, b *Node) bool {
	n := 0
	for _, f := range m {
		x, y := contains(f.A, a), contains(f.A, b)
		if x != y {
			return false
		}
		if x {
			n++
		}
	}
	return n > 0
}

func indexOf(l []*Node, n *Node) int {
	for i, x := range l {
		if x == n {
			return i
		}
	}
	return 0
}

func divides(val, m *Node) bool {
	// some term of val is a multiple of m
	q := mkDiv(val, m)
	for _, t := range termsOf(q) {
		for _, f := range t.M {
			if f.A.kind == KDiv {
				continue
			}
		}
		if len(t.M) == 1 && t.M[0].A.kind == KDiv {
			continue
		}
		return true
	}
	return false
}

func guardFacts(val, hi *Node) []*Node {
	return nil
}

func withFactsIf(l []*Node, f func()) {
	if len(l) == 0 {
		f()
		return
	}
	withFacts(l, f)
}

func insertBinder(bs []*Node, i int, k *Node) []*Node {
	r := append([]*Node{}, bs[:i]...)
	r = append(r, k)
	return append(r, bs[i:]...)
}

func findDiv(m []Factor, k *Node) *Node {
	var d *Node
	for _, f := range m {
		if !contains(f.A, k) {
			continue
		}
		walkNodes(f.A, func(x *Node) bool {
			if d != nil || !contains(x, k) {
				return false
			}
			if x.kind == KDiv && contains(x.args[0], k) && !contains(x.args[1], k) {
				if c, _, ok := linearAtom(x.args[0], k); ok && c.Cmp(ratOne) == 0 && x.args[1].bv == 0 {
					d = x.args[1]
					return false
				}
			}
			return true
		})
		if d != nil {
			return d
		}
	}
	return nil
}

func removeFactor(m []Factor, j int) []Factor {
	r := append([]Factor{}, m[:j]...)
	return append(r, m[j+1:]...)
}

func components(bs []*Node, m []Factor) [][]*Node {
	parent := make([]int, len(bs))
	for i := range parent {
		parent[i] = i
	}
	var find func(int) int
	find = func(i int) int {
		if parent[i] != i {
			parent[i] = find(parent[i])
		}
		return parent[i]
	}
	union := func(i, j int) { parent[find(i)] = find(j) }
	link := func(n *Node, self int) {
		first := self
		for i, b := range bs {
			if contains(n, b) {
				if first < 0 {
					first = i
				} else {
					union(first, i)
				}
			}
		}
	}
	for i, b := range bs {
		link(b.info.hi, i)
	}
	for _, f := range m {
		link(f.A, -1)
	}
	groups := map[int][]*Node{}
	var order []int
	for i, b := range bs {
		r := find(i)
		if _, ok := groups[r]; !ok {
			order = append(order, r)
		}
		groups[r] = append(groups[r], b)
	}
	var out [][]*Node
	for _, r := range order {
		out = append(out, groups[r])
	}
	return out
}

// ---------------------------------------------------------------------------
// A sum over [0,h) next to its own term at h, or at -1, is the sum over one more index

type edgeKey struct{ id, v int }

type sumEdges struct {
	ok     bool
	at     [2]*Node // at h, at -1
	opened *Node
	k      *Node
}

var edgeMemo = map[edgeKey]*sumEdges{}

func edgesOf(n *Node) *sumEdges {
	key := edgeKey{n.id, facts.version}
	if e, ok := edgeMemo[key]; ok {
		return e
	}
	e := &sumEdges{}
	edgeMemo[key] = e
	h := n.args[2]
	if h.bv != 0 || n.bv != 0 || !nonneg(h) {
		return e
	}
	ks, body := openSum(n)
	e.k, e.opened = ks[0], body
	for i, v := range []*Node{h, IntC(-1)} {
		x := Subst(body, map[*Node]*Node{e.k: v})
		if len(termsOf(x)) == 1 && !isZero(x) {
			e.at[i] = x
			e.ok = true
		}
	}
	return e
}

var absorbing int

// absorb extends a sum by the terms at its edges
func absorb(s Sort, ts []Term) *Node {
	if absorbing > 3 {
		return nil
	}
	absorbing++
	r := segments(s, ts)
	absorbing--
	if r != nil {
		return r
	}
	for i, t := range ts {
		for j, f := range t.M {
			if f.A.kind != KSum || f.A.n != 1 || f.E != 1 {
				continue
			}
			absorbing++
			r := absorbAt(s, ts, i, j)
			absorbing--
			if r != nil {
				return r
			}
		}
	}
	return nil
}

// segments merges the difference of two sums of the same terms over nested ranges
func segments(s Sort, ts []Term) *Node {
	type place struct{ i, j int }
	seen := map[*Node][]place{}
	for i, t := range ts {
		for j, f := range t.M {
			if f.A.kind != KSum || f.E != 1 || f.A.bv != 0 {
				continue
			}
			for _, q := range seen[f.A.args[0]] {
				if r := segment(s, ts, i, j, q.i, q.j); r != nil {
					return r
				}
			}
			seen[f.A.args[0]] = append(seen[f.A.args[0]], place{i, j})
		}
	}
	return nil
}

func segment(s Sort, ts []Term, i, ji, l, jl int) *Node {
	a, b := ts[i], ts[l]
	x, y := a.M[ji].A, b.M[jl].A
	if i == l || x.n != y.n || new(big.Rat).Add(a.C, b.C).Sign() != 0 {
		return nil
	}
	rest := removeFactor(a.M, ji)
	if factorsKey(rest) != factorsKey(removeFactor(b.M, jl)) {
		return nil
	}
	at := -1
	for o := 0; o < x.n; o++ {
		if x.args[1+2*o] != y.args[1+2*o] {
			return nil
		}
		if x.args[2+2*o] != y.args[2+2*o] {
			if at >= 0 {
				return nil
			}
			at = o
		}
	}
	if at < 0 {
		return nil
	}
	bs, sub := openBinders(x)
	hx, hy := bs[at].info.hi, y.args[2+2*at]
	if len(sub) > 0 {
		hy = Subst(hy, sub)
	}
	if contains(hy, bs[at]) {
		return nil
	}
	c := a.C
	var fs []*Node
	for o, k := range bs {
		if contains(k.info.hi, bs[at]) {
			return nil
		}
		if o != at {
			fs = append(fs, Le(IntC(1), k.info.hi))
		}
	}
	d := Sub(hx, hy)
	ok := false
	withFacts(fs, func() {
		if nonneg(hy) && nonneg(d) {
			ok = true
		} else if d = Neg(d); nonneg(hx) && nonneg(d) {
			ok, c, hy = true, b.C, hx
		}
	})
	if !ok {
		return nil
	}
	body := Subst(x.args[0], sub)
	nk := loopSym("k", d)
	body = Subst(body, map[*Node]*Node{bs[at]: Add(nk, hy)})
	bs[at] = nk
	// the range of the new binder may depend on the others
	bs = append(append(append([]*Node{}, bs[:at]...), bs[at+1:]...), nk)
	acc := newAcc(s)
	for o, w := range ts {
		if o != i && o != l {
			acc.add(w.C, w.M)
		}
	}
	acc.addNode(c, Mul(monoNode(s, rest), sumOver(s, bs, body)))
	return acc.node()
}

func absorbAt(s Sort, ts []Term, i, j int) *Node {
	t := ts[i]
	e := edgesOf(t.M[j].A)
	if !e.ok {
		return nil
	}
	rest := monoNode(s, removeFactor(t.M, j))
	for side, x := range e.at {
		if x == nil {
			continue
		}
		y := termsOf(Scale(t.C, Mul(rest, x)))
		if len(y) != 1 {
			continue
		}
		for l, u := range ts {
			if l == i || factorsKey(u.M) != factorsKey(y[0].M) || u.C.Cmp(y[0].C) != 0 {
				continue
			}
			h := t.M[j].A.args[2]
			k := loopSym("k", Add(h, IntC(1)))
			at := k
			if side == 1 {
				at = Sub(k, IntC(1))
			}
			sum := mkSum(k, Subst(e.opened, map[*Node]*Node{e.k: at}))
			acc := newAcc(s)
			for o, w := range ts {
				if o != i && o != l {
					acc.add(w.C, w.M)
				}
			}
			acc.addNode(t.C, Mul(rest, sum))
			return acc.node()
		}
	}
	return nil
}

// downwards reports whether k is only used with a negative sign
func downwards(n, k *Node) bool {
	pos, neg := false, false
	walkNodes(n, func(x *Node) bool {
		if pos || !contains(x, k) {
			return false
		}
		if x == k {
			pos = true
			return false
		}
		if (x.kind == KEq0 || x.kind == KGe0) && x.args[0].sort == SInt {
			// a condition has no direction
			if _, rest, ok := linearAtom(x.args[0], k); ok && !contains(rest, k) {
				return false
			}
		}
		if x.kind == KPoly && x.sort == SInt {
			if c, _, ok := linearAtom(x, k); ok {
				if c.Sign() < 0 {
					neg = true
				} else {
					pos = true
				}
				return false
			}
		}
		return true
	})
	return neg && !pos
}

// canonBinders closes the binders in the order giving the smallest term
func canonBinders(kind Kind, s Sort, bs []*Node, body *Node) *Node {
	if len(bs) == 1 {
		if k := bs[0]; kind == KSum && downwards(body, k) {
			nk := loopSym("k", k.info.hi)
			r := Subst(body, map[*Node]*Node{k: Sub(Sub(k.info.hi, IntC(1)), nk)})
			if !downwards(r, nk) {
				return mkSum(nk, r)
			}
		}
		return closeBinders(kind, s, bs, body)
	}
	if len(bs) > 5 {
		fail("too many binders in one sum")
	}
	var best *Node
	var rec func(done []*Node, left []*Node)
	rec = func(done []*Node, left []*Node) {
		if len(left) == 0 {
			n := closeBinders(kind, s, done, body)
			if best == nil || structLess(n, best) {
				best = n
			}
			return
		}
		for i, b := range left {
			ok := true
			for j, c := range left {
				if i != j && contains(b.info.hi, c) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			rec(append(append([]*Node{}, done...), b), withoutIdx(left, i))
		}
	}
	rec(nil, bs)
	return best
}

// structLess is an order on terms that only depends on their structure
func structLess(a, b *Node) bool { return a.id < b.id }

func mkProd(k, body *Node) *Node {
	s := body.sort
	hi := k.info.hi
	if !contains(body, k) {
		if c, ok := constOf(hi); ok && c.IsInt() && c.Sign() >= 0 && c.Num().Int64() < 16 {
			return Pow(body, int(c.Num().Int64()))
		}
		if isOne(body) {
			return body
		}
		if s == SInt {
			if c, ok := constOf(body); ok && c.IsInt() && c.Num().Int64() == 2 {
				return P2(hi)
			}
		}
		if s == SField {
			return mkPowF(body, hi)
		}
		return App("intpow", SInt, body, hi)
	}
	if c, ok := constOf(hi); ok && c.Cmp(ratOne) == 0 {
		return Subst(body, map[*Node]*Node{k: IntC(0)})
	}
	if ts := termsOf(body); len(ts) == 1 && (len(ts[0].M) > 1 || ts[0].C.Cmp(ratOne) != 0) {
		r := mkProd(k, Const(s, ts[0].C))
		for _, f := range ts[0].M {
			r = Mul(r, Pow(mkProd(k, f.A), f.E))
		}
		return r
	}
	if r := disjointProd(k, body); r != nil {
		return r
	}
	if downwards(body, k) {
		nk := loopSym("k", hi)
		if r := Subst(body, map[*Node]*Node{k: Sub(Sub(hi, IntC(1)), nk)}); !downwards(r, nk) {
			return mkProd(nk, r)
		}
	}
	return closeBinders(KProd, s, []*Node{k}, body)
}

// disjointProd: the product of 1+d(k) is 1 plus the sum of d(k) when at most one of the d(k) is not zero
func disjointProd(k, body *Node) *Node {
	one := Const(body.sort, ratOne)
	d := Sub(body, one)
	for _, t := range termsOf(d) {
		ok := false
		for _, f := range t.M {
			if f.A.kind == KInd && contains(f.A, k) {
				ok = true
			}
		}
		if !ok {
			return nil
		}
	}
	j := loopSym("j", k)
	var zero bool
	withFacts([]*Node{Le(IntC(1), k)}, func() { zero = isZero(Mul(d, Subst(d, map[*Node]*Node{k: j}))) })
	if !zero {
		return nil
	}
	return Add(one, mkSum(k, d))
}

func mkForAll(k, body *Node) *Node {
	switch body.kind {
	case KTrue:
		return NTrue
	case KAnd:
		var l []*Node
		for _, a := range body.args {
			l = append(l, mkForAll(k, a))
		}
		return And(l...)
	}
	hi := k.info.hi
	if !contains(body, k) {
		if nonneg(Sub(hi, IntC(1))) {
			return body
		}
		return Or(Le(hi, IntC(0)), body)
	}
	if c, ok := constOf(hi); ok {
		if c.Sign() <= 0 {
			return NTrue
		}
		if c.Cmp(ratOne) == 0 {
			return Subst(body, map[*Node]*Node{k: IntC(0)})
		}
	}
	// a disjunct that does not depend on k goes out
	if body.kind == KOr {
		var in, out []*Node
		for _, a := range body.args {
			if contains(a, k) {
				in = append(in, a)
			} else {
				out = append(out, a)
			}
		}
		if len(out) > 0 {
			return Or(append(out, mkForAll(k, Or(in...)))...)
		}
	}
	if downwards(body, k) {
		nk := loopSym("k", hi)
		r := Subst(body, map[*Node]*Node{k: Sub(Sub(hi, IntC(1)), nk)})
		if !downwards(r, nk) {
			return mkForAll(nk, r)
		}
	}
	return closeBinders(KForAll, SBool, []*Node{k}, body)
}

// ---------------------------------------------------------------------------
// Systems of recurrences that have no closed form

type Iter struct {
	k    *Node
	n    *Node
	phi  []*Node
	init []*Node
	step []*Node
	sel  int
}

// unrollMax: sums and recurrences of at most that many terms are written out
const unrollMax = 4

func openIter(n *Node) *Iter {
	m := n.n
	it := &Iter{n: n.args[0]}
	it.k = loopSym("k", it.n)
	sub := map[*Node]*Node{n.args[1]: it.k}
	for i := 0; i < m; i++ {
		b := n.args[2+i]
		p := openLike(b.sort, b.sig)
		if b.sort == SInt {
			p = newSym("phi", SInt, nil)
		}
		it.phi = append(it.phi, p)
		sub[b] = p
	}
	it.init = append(it.init, n.args[2+m:2+2*m]...)
	for i := 0; i < m; i++ {
		it.step = append(it.step, rename(n.args[2+2*m+i], sub))
	}
	return it
}

func (it *Iter) close() *Node {
	// dependency closure from the selected component
	need := map[int]bool{}
	var order []int
	var visit func(i int)
	visit = func(i int) {
		if need[i] {
			return
		}
		need[i] = true
		order = append(order, i)
		for j := range it.phi {
			if contains(it.step[i], it.phi[j]) {
				visit(j)
			}
		}
	}
	visit(it.sel)
	if c, ok := constOf(it.n); ok && c.Sign() <= 0 {
		return it.init[it.sel]
	}
	if c, ok := constOf(it.n); ok && c.IsInt() && c.Num().Int64() <= unrollMax {
		cur := map[int]*Node{}
		for _, i := range order {
			cur[i] = it.init[i]
		}
		for v := int64(0); v < c.Num().Int64(); v++ {
			sub := map[*Node]*Node{it.k: IntC(v)}
			for _, i := range order {
				sub[it.phi[i]] = cur[i]
			}
			next := map[int]*Node{}
			for _, i := range order {
				next[i] = Subst(it.step[i], sub)
			}
			cur = next
		}
		return cur[it.sel]
	}
	if order = it.merge(order); order[0] != it.sel {
		it.sel = order[0]
		return it.close()
	}
	if len(order) > 16 {
		fail("too many coupled recurrences")
	}
	var best *Node
	var rec func(done, left []int)
	rec = func(done, left []int) {
		if len(left) == 0 {
			n := it.closeOrder(done)
			if best == nil || structLess(n, best) {
				best = n
			}
			return
		}
		// only the order of those starting with the same value has to be tried
		first := left[0]
		for _, i := range left {
			if it.init[i].id < it.init[first].id {
				first = i
			}
		}
		for i := range left {
			if it.init[left[i]] != it.init[first] {
				continue
			}
			l := append(append([]int{}, left[:i]...), left[i+1:]...)
			rec(append(append([]int{}, done...), left[i]), l)
		}
	}
	rec(order[:1], order[1:])
	return best
}

// merge keeps one of the recurrences that always have the same value; the first of the result is that
// of the first
func (it *Iter) merge(order []int) []int {
	class := map[int]int{}
	type start struct {
		init *Node
		sort Sort
		dims int
	}
	first := map[start]int{}
	same := false
	for _, i := range order {
		k := start{it.init[i], it.phi[i].sort, dimsOf(it.phi[i])}
		if r, ok := first[k]; ok {
			class[i] = r
			same = true
		} else {
			first[k] = i
			class[i] = i
		}
	}
	for same {
		sub := map[*Node]*Node{}
		for _, i := range order {
			if class[i] != i {
				sub[it.phi[i]] = it.phi[class[i]]
			}
		}
		if len(sub) == 0 {
			return order
		}
		type split struct {
			class int
			step  *Node
		}
		reps := map[split]int{}
		next := map[int]int{}
		changed := false
		steps := map[int]*Node{}
		for _, i := range order {
			steps[i] = Subst(it.step[i], sub)
			k := split{class[i], steps[i]}
			if _, ok := reps[k]; !ok {
				reps[k] = i
			}
			next[i] = reps[k]
			if next[i] != class[i] {
				changed = true
			}
		}
		if changed {
			class = next
			continue
		}
		var out []int
		for _, i := range order {
			if class[i] == i {
				out = append(out, i)
				it.step[i] = steps[i]
			}
		}
		return out
	}
	return order
}

func (it *Iter) closeOrder(order []int) *Node {
	m := len(order)
	l := it.n.hb
	for _, i := range order {
		if it.init[i].hb > l {
			l = it.init[i].hb
		}
		if it.step[i].hb > l {
			l = it.step[i].hb
		}
	}
	for {
		sub := map[*Node]*Node{}
		kv := bvar(l, SInt, Sig{})
		sub[it.k] = kv
		mask := uint64(1) << uint(l)
		args := []*Node{it.n, kv}
		for j, i := range order {
			p := it.phi[i]
			v := bvar(l+1+j, p.sort, p.sig)
			sub[p] = v
			mask |= 1 << uint(l+1+j)
			args = append(args, v)
		}
		for _, i := range order {
			args = append(args, it.init[i])
		}
		again := false
		for _, i := range order {
			st := Subst(it.step[i], sub)
			if st.hb > l {
				l = st.hb
				again = true
			}
			args = append(args, st)
		}
		if again {
			continue
		}
		s := it.phi[order[0]].sort
		return intern(&Node{kind: KIter, sort: s, n: m, args: args, sig: it.phi[order[0]].sig}).withBinder(mask, l+1+m)
	}
}

// rebuildApp reapplies the simplifications known for some functions
func rebuildApp(n *Node, args []*Node) *Node {
	if f, ok := appRules[n.name]; ok {
		if r := f(args); r != nil {
			return r
		}
	}
	if strings.HasPrefix(n.name, permName) || strings.HasPrefix(n.name, unpermName) {
		return App(n.name, n.sort, args...)
	}
	if n.name == "==" {
		return mkEq(args[0], args[1])
	}
	r := &Node{kind: KApp, sort: n.sort, name: n.name, args: args, sig: n.sig}
	r = intern(r)
	if r.sort == SBool {
		if v, ok := factTruth(r); ok {
			if v {
				return NTrue
			}
			return NFalse
		}
	}
	return r
}

var appRules = map[string]func([]*Node) *Node{}

func sortedKeys(m map[string]*Node) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = strings.HasPrefix
