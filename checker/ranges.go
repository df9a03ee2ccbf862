package main

// ---------------------------------------------------------------------------
// Ranges of indices: eliminates the bounded terms of a polynomial one after the other, each by the end of its range
// that makes the polynomial smallest

func inRange(c *Node) bool {
	if c == NTrue || provable(c, 5) {
		return true
	}
	switch c.kind {
	case KAnd:
		for _, x := range c.args {
			if !inRange(x) {
				return false
			}
		}
		return true
	case KOr:
		for _, x := range c.args {
			if inRange(x) {
				return true
			}
		}
		return false
	case KGe0:
		return atLeast0(c.args[0], 6)
	case KNot:
		switch x := c.args[0]; x.kind {
		case KGe0:
			return atLeast0(Sub(IntC(-1), x.args[0]), 6)
		case KEq0:
			p := x.args[0]
			return p.sort == SInt && (atLeast0(Sub(p, IntC(1)), 6) || atLeast0(Sub(IntC(-1), p), 6))
		}
	}
	return false
}

func atLeast0(p *Node, depth int) bool {
	if nonneg(p) {
		return true
	}
	if depth == 0 {
		return false
	}
	// by cases on a condition
	var cond *Node
	for _, t := range termsOf(p) {
		for _, f := range t.M {
			if f.A.kind == KInd && f.A.bv == 0 {
				cond = f.A.args[0]
			}
		}
	}
	if cond != nil {
		ok := true
		for _, c := range []*Node{cond, Not(cond)} {
			withFacts([]*Node{c}, func() { ok = ok && (facts.absurd || atLeast0(Rebuild(p), depth-1)) })
		}
		return ok
	}
	seen := map[*Node]bool{}
	for _, t := range termsOf(p) {
		for _, f := range t.M {
			a := f.A
			if seen[a] || f.E != 1 {
				continue
			}
			seen[a] = true
			c, rest, ok := coefPoly(p, a)
			if !ok {
				continue
			}
			up, down := nonneg(c), nonneg(Neg(c))
			if !up && !down {
				continue
			}
			lo, hi := bounds(a)
			var ends []*Node
			if up && lo != nil {
				ends = append(ends, lo)
			}
			if down && hi != nil {
				ends = append(ends, hi)
			}
			// what the facts say about it
			for _, q := range facts.polysFor(p) {
				qc, qr, ok := coefPoly(q, a)
				if !ok {
					continue
				}
				if v, ok := constOf(qc); ok && up && v.Cmp(ratOne) == 0 {
					ends = append(ends, Neg(qr))
				} else if ok && down && Neg(qc) == IntC(1) {
					ends = append(ends, qr)
				}
			}
			for i, e := range ends {
				if i < 4 && !contains(e, a) && atLeast0(Add(rest, Mul(c, e)), depth-1) {
					return true
				}
			}
		}
	}
	return false
}
