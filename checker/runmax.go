package main

import "sort"

// runningMax recognises m, max(m, e1(k), ..., el(k)), however it is computed, and gives it one form
func runningMax(x *rec, k *Node) *Node {
	me := x.phi
	if me.sort != SInt || !contains(x.step, me) || len(nodesOf(x.step, 400)) >= 400 {
		return nil
	}
	var cand []*Node
	add := func(e *Node) {
		if contains(e, me) {
			return
		}
		for _, c := range cand {
			if c == e {
				return
			}
		}
		if len(cand) < 12 {
			cand = append(cand, e)
		}
	}
	walkNodes(x.step, func(n *Node) bool {
		if n.kind == KGe0 && n.args[0].sort == SInt {
			if c, rest, ok := linearAtom(n.args[0], me); ok && c.IsInt() {
				switch c.Num().Int64() {
				case 1: // m + rest >= 0
					add(Neg(rest))
					add(Sub(Neg(rest), IntC(1)))
				case -1: // rest - m >= 0
					add(rest)
					add(Add(rest, IntC(1)))
				}
			}
		}
		if n.sort == SInt && n.kind != KInd && n.kind != KPoly && n != me && n != k && contains(n, k) && !contains(n, me) {
			add(n)
		}
		return n.kind != KSum && n.kind != KForAll && n.kind != KLam
	})
	if !byCases([]*Node{x.step}, 6, func(l []*Node) bool { return nonneg(Sub(l[0], me)) }) {
		return nil
	}
	var es []*Node
	for _, e := range cand {
		if byCases([]*Node{x.step, e}, 6, func(l []*Node) bool { return nonneg(Sub(l[0], l[1])) }) {
			es = append(es, e)
		}
	}
	// a candidate below another one adds nothing
	var top []*Node
	for i, e := range es {
		low := false
		for j, f := range es {
			if i != j && nonneg(Sub(f, e)) && !(j > i && nonneg(Sub(e, f))) {
				low = true
			}
		}
		if !low {
			top = append(top, e)
		}
	}
	if len(top) == 0 {
		return nil
	}
	attained := func(l []*Node) bool {
		return byCases(append([]*Node{x.step, me}, l...), 6, func(l []*Node) bool {
			for _, e := range l[1:] {
				if nonneg(Sub(e, l[0])) {
					return true
				}
			}
			return false
		})
	}
	// the fewest, and the simplest: without conditions
	for _, keep := range []func(*Node) bool{func(e *Node) bool { return indicatorIn(e) == nil }, func(*Node) bool { return true }} {
		var l []*Node
		for _, e := range top {
			if keep(e) {
				l = append(l, e)
			}
		}
		if len(l) == 0 || !attained(l) {
			continue
		}
		for i := 0; i < len(l) && len(l) > 1; i++ {
			if m := append(append([]*Node{}, l[:i]...), l[i+1:]...); attained(m) {
				l = m
				i--
			}
		}
		return greatest(me, l, k)
	}
	return nil
}

// greatest is the greatest of me and l, which depend on k
func greatest(me *Node, top []*Node, k *Node) *Node {
	y := openIdx()
	lams := map[*Node]*Node{}
	for _, e := range top {
		lams[e] = mkLam(y, Subst(e, map[*Node]*Node{k: y}))
	}
	sort.Slice(top, func(i, j int) bool { return structLess(lams[top[i]], lams[top[j]]) })
	step := me
	for _, e := range top {
		step = Ite(Lt(step, e), e, step)
	}
	return step
}

func nodesOf(n *Node, limit int) []*Node {
	var l []*Node
	walkNodes(n, func(x *Node) bool {
		if len(l) < limit {
			l = append(l, x)
		}
		return len(l) < limit
	})
	return l
}

// byCases establishes a goal about some integers in each of the cases distinguished by the conditions in them
func byCases(l []*Node, depth int, goal func([]*Node) bool) bool {
	if goal(l) || impossible() {
		return true
	}
	if depth == 0 {
		return false
	}
	var c *Node
	for _, n := range l {
		walkNodes(n, func(x *Node) bool {
			if c == nil && x.kind == KInd {
				inner := false
				walkNodes(x.args[0], func(y *Node) bool {
					inner = inner || y.kind == KInd
					return !inner
				})
				if !inner {
					c = x.args[0]
				}
			}
			return c == nil
		})
	}
	if c == nil {
		return false
	}
	for _, h := range []*Node{c, Not(c)} {
		ok := false
		withFacts([]*Node{h}, func() {
			var m []*Node
			for _, n := range l {
				m = append(m, Rebuild(n))
			}
			ok = byCases(m, depth-1, goal)
		})
		if !ok {
			return false
		}
	}
	return true
}
