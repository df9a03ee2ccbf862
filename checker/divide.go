package main

// ---------------------------------------------------------------------------
// Integer division: x div d is replaced by a number q, where x = q·d + r and 0 <= r < d

// divsIn lists the divisions in n by something that is not a constant power of two, innermost first
func divsIn(n *Node) []*Node {
	var l []*Node
	seen := map[*Node]bool{}
	var walk func(x *Node)
	walk = func(x *Node) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			walk(a)
		}
		for _, t := range x.terms {
			for _, f := range t.M {
				walk(f.A)
			}
		}
		if x.kind == KDiv && x.bv == 0 {
			l = append(l, x)
		}
	}
	walk(n)
	return l
}

// provableByDivision establishes b given hyps
func provableByDivision(b *Node, hyps []*Node, depth int) bool {
	if depth == 0 {
		return false
	}
	if b.kind == KTrue {
		return true
	}
	ds := divsIn(b)
	if len(ds) == 0 {
		ok := false
		withFacts(hyps, func() { ok = provable(Rebuild(b), 8) || impossible() })
		return ok
	}
	inDivisor := map[*Node]bool{}
	for _, d := range ds {
		if c := indicatorIn(d.args[1]); c != nil {
			for _, h := range []*Node{c, Not(c)} {
				ok := false
				withFacts([]*Node{h}, func() { ok = provableByDivision(Rebuild(b), append(hyps[:len(hyps):len(hyps)], h), depth-1) })
				if !ok {
					return false
				}
			}
			return true
		}
		for _, e := range divsIn(d.args[1]) {
			inDivisor[e] = true
		}
	}
	subst := func(sub map[*Node]*Node, more []*Node) bool {
		var hs []*Node
		for _, h := range hyps {
			hs = append(hs, Subst(h, sub))
		}
		for _, f := range facts.list {
			if anyKey(f, sub) {
				hs = append(hs, Subst(f, sub))
			}
		}
		r := false
		withFacts(more, func() { r = provableByDivision(Subst(b, sub), append(hs, more...), depth-1) })
		return r
	}
	for _, d := range ds {
		if inDivisor[d] && len(divsIn(d)) == 1 {
			return subst(map[*Node]*Node{d: newSym("divisor", SInt, &SymInfo{nat: true})}, nil)
		}
	}
	for _, d := range ds {
		positive := false
		withFacts(hyps, func() { positive = nonneg(Sub(d.args[1], IntC(1))) })
		if len(divsIn(d)) != 1 || !positive {
			continue
		}
		for _, x := range symsIn(d.args[0]) {
			c, rest, ok := linearAtom(d.args[0], x)
			if !ok || c.Cmp(ratOne) != 0 || contains(d.args[1], x) {
				continue
			}
			q, r := newSym("q", SInt, &SymInfo{nat: true}), newSym("r", SInt, &SymInfo{nat: true})
			sub := map[*Node]*Node{x: Sub(Add(Mul(q, d.args[1]), r), rest)}
			more := []*Node{Le(r, Sub(d.args[1], IntC(1)))}
			for c := int64(1); c >= 0; c-- {
				if nonneg(Sub(x, IntC(c))) {
					more = append(more, mkGe0(Sub(sub[x], IntC(c))))
					break
				}
			}
			return subst(sub, more)
		}
	}
	return false
}

func symsIn(p *Node) []*Node {
	var l []*Node
	for _, t := range termsOf(p) {
		if len(t.M) == 1 && t.M[0].E == 1 && t.M[0].A.kind == KSym {
			l = append(l, t.M[0].A)
		}
	}
	return l
}
