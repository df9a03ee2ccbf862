package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// The vocabulary of the obligations (spec/sym)

type Finding struct {
	label string
	pos   string
	ok    bool
	msg   string
}

func (in *Interp) result(label string, ok bool, format string, a ...interface{}) {
	in.findings = append(in.findings, Finding{label, in.where(), ok, fmt.Sprintf(format, a...)})
}

func (in *Interp) strArg(st *State, e ast.Expr) string {
	n := in.eval(st, e).node()
	if n.kind == KApp && strings.HasPrefix(n.name, "const:") {
		return n.name[6:]
	}
	in.fail("a constant string is expected")
	return ""
}

func (in *Interp) callThunk(st *State, f Val, args ...Val) []Val {
	return in.callValue(st, f.node(), f.t.Underlying().(*types.Signature), args, in.curPos)
}

// valueOf is the value of an argument of type any, with its static type
func (in *Interp) anyArg(st *State, e ast.Expr) Val {
	v := in.eval(st, e)
	if isInterface(v.t) && v.l[0].kind == KApp && strings.HasPrefix(v.l[0].name, "iface:") {
		return Val{in.ifaceTypes[v.l[0].name], v.l[0].args}
	}
	return v
}

func (in *Interp) intrinsic(st *State, name string, call *ast.CallExpr, sig *types.Signature) []Val {
	t := types.Type(types.Typ[types.Bool])
	if sig.Results().Len() > 0 {
		t = in.typeOf(call)
	}
	arg := func(i int) Val { return in.eval(st, call.Args[i]) }
	switch name {
	case "Nat", "Pos":
		n := in.strArg(st, call.Args[0])
		lo := IntC(0)
		if name == "Pos" {
			lo = IntC(1)
		}
		return []Val{scalar(t, namedSym("int:"+n, SInt, &SymInfo{lo: lo, nat: true}))}
	case "Of":
		n := in.strArg(st, call.Args[0])
		return []Val{in.symInput(st, t, n, nil)}
	case "Slice":
		n := in.strArg(st, call.Args[0])
		ln := arg(1).node()
		return []Val{in.symInput(st, t, n, []*Node{ln})}
	case "Slice2":
		n := in.strArg(st, call.Args[0])
		return []Val{in.symInput(st, t, n, []*Node{arg(1).node(), arg(2).node()})}
	case "Perm":
		n := in.strArg(st, call.Args[0])
		return []Val{scalar(t, App(permName+n, SInt, arg(2).node(), arg(1).node()))}
	case "ChanFor":
		return []Val{in.makeChan(st, t, arg(1).node(), call.Pos())}
	case "Deliver":
		ch := in.anyArg(st, call.Args[0])
		v := Val{t: ch.t.Underlying().(*types.Chan).Elem()}
		for _, a := range call.Args[1:] {
			v.l = append(v.l, in.anyArg(st, a).l...)
		}
		if len(v.l) != len(leaves(v.t)) {
			in.fail("the fields do not fit %v", v.t)
		}
		in.chanSend(st, ch, v)
		return nil
	case "Receives":
		in.event("receives", "", in.anyArg(st, call.Args[0]).node(), nil)
		return nil
	case "Assume":
		b := arg(0).node()
		in.assumes = append(in.assumes, b)
		pushFacts(b)
		return nil
	case "Equal":
		label := in.strArg(st, call.Args[0])
		x, y := in.anyArg(st, call.Args[1]), in.anyArg(st, call.Args[2])
		old := goalVars
		goalVars = append(goalVars[:len(goalVars):len(goalVars)], in.loops...)
		in.compare(st, label, x, y)
		goalVars = old
		return nil
	case "Eq":
		x, y := in.anyArg(st, call.Args[0]), in.anyArg(st, call.Args[1])
		var l []*Node
		dx, dy := in.quietDeep(st, x), in.quietDeep(st, y)
		if len(dx) != len(dy) {
			in.fail("comparison of different shapes")
		}
		for i := range dx {
			if dx[i].n.sort == SArr {
				in.fail("Eq on arrays")
			}
			l = append(l, mkEq(dx[i].n, dy[i].n))
		}
		return []Val{scalar(t, And(l...))}
	case "Holds":
		label := in.strArg(st, call.Args[0])
		b := Rebuild(arg(1).node())
		old := goalVars
		goalVars = append(goalVars[:len(goalVars):len(goalVars)], in.loops...)
		ok := provable(b, 6) || provableByDivision(b, nil, 12)
		goalVars = old
		in.result(label, ok, "not established: %s", show(b))
		if os.Getenv("DBGH") != "" {
			println("HOLDS", label, len(show(b)), in.prog != nil)
		}
		return nil
	case "Implies":
		a := arg(0).node()
		var b *Node
		in.under(a, func() { b = arg(1).node() })
		return []Val{scalar(t, Or(Not(a), b))}
	case "ForAll":
		n := arg(0).node()
		f := arg(1)
		k := loopSym("k", n)
		in.loops = append(in.loops, k)
		var b *Node
		withFacts([]*Node{Le(IntC(1), n)}, func() { b = in.callThunk(st.clone(), f, scalar(types.Typ[types.Int], k))[0].node() })
		in.loops = in.loops[:len(in.loops)-1]
		return []Val{scalar(t, mkForAll(k, b))}
	case "Sum":
		n := arg(0).node()
		f := arg(1)
		k := loopSym("k", n)
		in.loops = append(in.loops, k)
		var b Val
		withFacts([]*Node{Le(IntC(1), n)}, func() { b = in.callThunk(st.clone(), f, scalar(types.Typ[types.Int], k))[0] })
		in.loops = in.loops[:len(in.loops)-1]
		return []Val{scalar(t, mkSum(k, b.node()))}
	case "Asserted":
		f := arg(0)
		old := st.cells[assertCell]
		st.cells[assertCell] = NTrue
		in.callThunk(st, f)
		r := st.cells[assertCell]
		st.cells[assertCell] = old
		return []Val{scalar(t, r)}
	case "Init":
		in.initPackage(st, modPath+"/"+in.strArg(st, call.Args[0]))
		return nil
	case "Require":
		in.assert(st, arg(0).node())
		return nil
	case "Panics":
		f := arg(0)
		s2 := st.clone()
		s2.cells[panicCell] = NFalse
		b := in.bounds
		in.bounds = false
		in.callThunk(s2, f)
		in.bounds = b
		return []Val{scalar(t, s2.cells[panicCell])}
	case "Pow2":
		return []Val{scalar(t, P2(arg(0).node()))}
	case "Bit":
		return []Val{scalar(t, mkMod(mkDiv(arg(0).node(), P2(arg(1).node())), IntC(2)))}
	case "Fresh":
		label := in.strArg(st, call.Args[0])
		mine := map[string]bool{}
		x := in.anyArg(st, call.Args[1])
		in.reachable(st, x, mine)
		for _, e := range call.Args[2:] {
			other := map[string]bool{}
			y := in.anyArg(st, e)
			if disjointParts(x, y) {
				continue
			}
			in.reachable(st, y, other)
			for id := range other {
				if mine[id] {
					in.result(label, false, "memory is shared (%s)", id)
					return nil
				}
			}
		}
		in.result(label, true, "")
		return nil
	case "Quiet":
		label := in.strArg(st, call.Args[0])
		f := arg(1)
		e0 := len(in.events)
		in.callThunk(st, f)
		for _, e := range in.events[e0:] {
			if e.kind == "append" && e.cond != NFalse {
				mapRefSafe(e.node, func(a *Node) {
					if a.kind == KAddr && in.obj(a).root != "" {
						in.result(label, false, "%s appends in the spare capacity of %s", in.prog.pos(e.pos), in.obj(a).root)
					}
				})
			}
		}
		in.result(label, true, "")
		return nil
	}
	in.fail("unknown primitive %s", name)
	return nil
}

// initPackage runs the initialisation of a package
func (in *Interp) initPackage(st *State, path string) {
	p := in.prog.pkgs[path]
	if p == nil {
		in.fail("no package %s", path)
	}
	old := in.frame.pkg
	in.frame.pkg = p
	for _, v := range p.tpkg.Scope().Names() {
		if g, ok := p.tpkg.Scope().Lookup(v).(*types.Var); ok {
			a := in.globalAddr(st, g)
			in.store(st, a, zeroVal(g.Type()))
		}
	}
	for _, i := range p.info.InitOrder {
		if len(i.Lhs) == 1 && i.Lhs[0].Name() != "_" {
			in.store(st, in.globalAddr(st, i.Lhs[0]), in.convert(st, in.eval(st, i.Rhs), i.Lhs[0].Type()))
		}
	}
	in.frame.pkg = old
	for _, f := range p.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				fn := p.info.Defs[fd.Name].(*types.Func)
				in.seen[funcKey(fn)]++
				in.run(st, p, funcKey(fn), fd.Type, fd.Body, fn.Type().(*types.Signature), map[types.Object]*Node{}, nil, nil, fd.Pos())
			}
		}
	}
}

func pushFacts(l ...*Node) {
	// kept until the obligation ends (see runObligation)
	n := facts
	withFacts(l, func() { n = facts })
	facts = n
}

// symInput is a symbolic value with memory of its own; lens are the lengths of the outer slices
func (in *Interp) symInput(st *State, t types.Type, name string, lens []*Node) Val {
	in.objSeq++
	id := fmt.Sprintf("in:%s~%d", name, in.objSeq)
	mk := symMaker(name)
	return in.symVal(st, t, id, "", nil, func(path string, s Sort, idx []*Node) *Node {
		if strings.HasSuffix(path, "#len") {
			d := strings.Count(path, "[]")
			if path == strings.Repeat("[]", d)+"#len" && d < len(lens) {
				return lens[d]
			}
		}
		return mk(path, s, idx)
	}, id)
}

func (in *Interp) quietDeep(st *State, v Val) []Deep {
	in.quiet++
	defer func() { in.quiet-- }()
	return in.deep(st, v)
}

// reachable collects the objects reachable from a value
func (in *Interp) reachable(st *State, v Val, out map[string]bool) {
	seen := map[*Node]bool{}
	var queue []*Node
	queue = append(queue, v.l...)
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		walkSeen(n, seen, func(x *Node) {
			if x.kind != KAddr {
				return
			}
			id, _ := splitAddr(x)
			if out[id] {
				return
			}
			out[id] = true
			for _, a := range in.aliases[id] {
				queue = append(queue, a)
			}
			if o := in.objs[id]; o != nil && o.tailOf != nil {
				queue = append(queue, o.tailOf)
			}
			for c, y := range st.cells {
				if objOfCell(c) == id {
					queue = append(queue, y)
				}
			}
		})
	}
}

// disjointParts tells whether x and y are parts of one array with no entry in common, up to their capacities
func disjointParts(x, y Val) bool {
	for _, v := range []Val{x, y} {
		s, ok := v.t.Underlying().(*types.Slice)
		if !ok || hasRefs(s.Elem()) {
			return false
		}
	}
	before := func(a, b Val) bool { return nonneg(Sub(b.l[1], Add(a.l[1], a.l[3]))) }
	return x.l[0] == y.l[0] && (before(x, y) || before(y, x))
}

// compare requires two values to have the same content
func (in *Interp) compare(st *State, label string, x, y Val) {
	dx, dy := in.quietDeep(st, x), in.quietDeep(st, y)
	my := map[string]*Node{}
	for _, d := range dy {
		my[d.path] = d.n
	}
	if len(dx) != len(dy) {
		in.result(label, false, "the values have different shapes")
		return
	}
	np := Not(st.cells[panicCell])
	mx := map[string]*Node{}
	for _, d := range dx {
		mx[d.path] = d.n
	}
	for _, d := range dx {
		b, ok := my[d.path]
		if !ok {
			in.result(label, false, "the values have different shapes (%s)", d.path)
			return
		}
		if msg := in.sameAt(d.path, d.n, b, mx, np); msg != "" {
			in.result(label, false, "%s", msg)
			return
		}
	}
	in.result(label, true, "")
}

// sameAt compares two leaves on the index range given by the lengths
func (in *Interp) sameAt(path string, a, b *Node, lens map[string]*Node, np *Node) string {
	if a == b {
		return ""
	}
	var xs []*Node
	var fs []*Node
	if np != NTrue {
		fs = append(fs, np)
	}
	rest := path
	prefix := ""
	for a.sort == SArr {
		if b.sort != SArr {
			return "the values have different shapes"
		}
		x := openIdx()
		i := strings.Index(rest, "[]")
		if i >= 0 {
			prefix += rest[:i]
			rest = rest[i+2:]
			if l := lens[prefix+"#len"]; l != nil {
				l = ApplyAll(l, xs[:dimsOf(l)]...)
				l = Rebuild(l)
				if c, ok := constOf(l); ok && c.Sign() <= 0 {
					return ""
				}
				x.info.hi = l
				fs = append(fs, Le(IntC(1), l))
			}
			prefix += "[]"
		}
		xs = append(xs, x)
		a, b = Apply(a, x), Apply(b, x)
	}
	same := false
	var ra, rb *Node
	withFacts(fs, func() {
		ra, rb = Rebuild(a), Rebuild(b)
		same = ra == rb || equalNodes(ra, rb)
	})
	if same {
		return ""
	}
	// short arrays are compared entry by entry
	for _, x := range xs {
		c, ok := (*big.Rat)(nil), false
		if x.info.hi != nil {
			c, ok = constOf(x.info.hi)
		}
		if !ok || !c.IsInt() || c.Cmp(big.NewRat(8, 1)) > 0 {
			continue
		}
		same = true
		for i := int64(0); i < c.Num().Int64() && same; i++ {
			sub := map[*Node]*Node{x: IntC(i)}
			withFacts(fs, func() {
				pa, pb := Rebuild(Subst(ra, sub)), Rebuild(Subst(rb, sub))
				same = pa == pb || equalNodes(pa, pb)
			})
		}
		if same {
			return ""
		}
	}
	what := path
	if what == "" {
		what = "value"
	}
	d := ""
	if ra.sort == SField || ra.sort == SInt {
		d = " ; difference " + clip(show(Sub(ra, rb)), 1500)
	}
	var at []string
	innermost(ra, rb, 3, &at)
	if len(at) > 0 {
		d += " ; at " + strings.Join(at, " ; ")
	}
	return fmt.Sprintf("%s differs: %s, expected %s%s", what, clip(show(ra), 1500), clip(show(rb), 1500), d)
}

func dimsOf(n *Node) int {
	if n.sort != SArr {
		return 0
	}
	return n.sig.Dims
}

func clip(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}

// indicatorIn finds a condition on which n depends through a number
func indicatorIn(n *Node) *Node {
	var r *Node
	walkNodes(n, func(x *Node) bool {
		if r != nil {
			return false
		}
		switch x.kind {
		case KSum, KProd, KForAll, KLam, KIter:
			return false
		case KInd:
			if x.args[0].bv == 0 {
				r = x.args[0]
				return false
			}
		}
		return true
	})
	return r
}

// impossible reports whether the current facts contradict each other
func impossible() bool {
	if facts.absurd {
		return true
	}
	for _, q := range facts.polys() {
		if nonneg(Sub(IntC(-1), q)) {
			return true
		}
	}
	return false
}

// provable establishes b, by cases on the conditions it depends on
func provable(b *Node, depth int) bool {
	switch b.kind {
	case KTrue:
		return true
	case KFalse:
		return impossible()
	case KAnd:
		for _, x := range b.args {
			if !provable(x, depth) {
				return false
			}
		}
		return true
	case KForAll:
		k, body := openForAll(b)
		goalVars = append(goalVars, k)
		defer func() { goalVars = goalVars[:len(goalVars)-1] }()
		ok := false
		l := []*Node{Le(IntC(1), k.info.hi)}
		if indicatorIn(k.info.hi) != nil {
			l = append(l, mkGe0raw(Sub(Sub(k.info.hi, IntC(1)), k)))
		}
		withFacts(l, func() {
			body = Rebuild(body)
			if body.kind == KOr && depth < 3 {
				// cases of the index
				depth = 3
			}
			ok = provable(body, depth)
		})
		return ok
	}
	// what is known of every index holds at those at hand
	var inst []*Node
	for _, k := range goalVars {
		inst = append(inst, instancesAt(k, b)...)
	}
	if len(inst) > 0 {
		ok := false
		withFacts(inst, func() {
			ok = provable(Rebuild(b), depth)
		})
		return ok
	}
	byCase := depth > 0 && b.kind == KOr && caseOf(b) != nil
	switch {
	case b.kind == KOr && !byCase:
		// assume that all the others fail and show one that is a conjunction
		for _, want := range []Kind{KAnd, KForAll} {
			for i, x := range b.args {
				if x.kind != want {
					continue
				}
				var others []*Node
				for j, y := range b.args {
					if j != i {
						others = append(others, Not(y))
					}
				}
				ok := false
				withFacts(others, func() {
					r := Rebuild(x)
					ok = provable(r, depth) || impossible()
				})
				if ok {
					return true
				}
			}
		}
	}
	var c *Node
	if depth > 0 {
		if c = indicatorIn(b); c == nil && byCase {
			c = caseOf(b)
		} else if c == nil && b.kind == KOr {
			c = literalIn(b)
		}
		for i := 0; i < len(goalVars) && c == nil; i++ {
			// the range of a variable of the goal depends on a condition
			if k := goalVars[i]; k.info != nil && k.info.hi != nil && b.kind != KFalse && contains(b, k) {
				if x := indicatorIn(k.info.hi); x != nil && Rebuild(x) == x {
					c = x
				}
			}
		}
	}
	if c == nil {
		if r, _, ok := unrolled(b, b); ok && unrolling < 2 {
			unrolling++
			defer func() { unrolling-- }()
			return provable(r, depth)
		}
		if sameAsFact(b) {
			return true
		}
		if b.kind == KNot && b.args[0].kind == KEq0 && b.args[0].args[0].sort == SInt || b.kind == KGe0 {
			ok := false
			inCase(Not(b), b, func(*Node) { ok = impossible() })
			if ok {
				return true
			}
		}
		stuck(b)
		return false
	}
	for _, h := range []*Node{c, Not(c)} {
		ok := false
		inCase(h, b, func(r *Node) { ok = (r != b || !contains(b, c)) && provable(r, depth-1) })
		if !ok {
			return false
		}
	}
	return true
}

// sameAsFact finds a fact stating the same (in)equation up to the form of its two sides
func sameAsFact(b *Node) bool {
	pos := b.kind == KEq0
	if !pos && b.kind == KNot {
		b = b.args[0]
	}
	if b.kind != KEq0 {
		return false
	}
	p := b.args[0]
	for _, f := range facts.list {
		q := f
		if !pos {
			if f.kind != KNot {
				continue
			}
			q = f.args[0]
		}
		if q.kind != KEq0 || q.args[0].sort != p.sort || p.sort != SField && p.sort != SInt {
			continue
		}
		if isZero(Rebuild(Sub(p, q.args[0]))) || isZero(Rebuild(Add(p, q.args[0]))) {
			return true
		}
	}
	return false
}

// inCase adds h to the facts, brings what it means for the others, and simplifies b accordingly
func inCase(h, b *Node, f func(b *Node)) {
	l := []*Node{h}
	c := h
	if c.kind == KNot {
		c = c.args[0]
	}
	var sub map[*Node]*Node
	if h.kind == KEq0 && h.args[0].sort == SInt {
		if a, v := solveEq(h.args[0]); a != nil {
			sub = map[*Node]*Node{a: v}
			b = Subst(b, sub)
		}
	}
	withFacts(l, func() {
		var more []*Node
		for _, x := range facts.list {
			if x != h && sub != nil && anyKey(x, sub) {
				more = append(more, rebuildFact(Subst(x, sub)))
				continue
			}
			if x == h || x.kind != KOr && !contains(x, c) {
				continue
			}
			if r := rebuildFact(x); r != x && r != NTrue {
				more = append(more, r)
			}
		}
		withFacts(more, func() { f(Rebuild(b)) })
	})
}

// rebuildFact simplifies a fact without using it
func rebuildFact(x *Node) *Node {
	switch x.kind {
	case KNot:
		return Not(rebuildFact(x.args[0]))
	case KEq0:
		return mkEq0(Rebuild(x.args[0]))
	case KGe0:
		return mkGe0(Rebuild(x.args[0]))
	case KOr, KAnd:
		var as []*Node
		for _, a := range x.args {
			as = append(as, Rebuild(a))
		}
		if x.kind == KOr {
			return Or(as...)
		}
		return And(as...)
	case KForAll:
		k, body := openForAll(x)
		return mkForAll(k, Rebuild(body))
	case KApp:
		var as []*Node
		for _, a := range x.args {
			as = append(as, Rebuild(a))
		}
		return rebuildApp(x, as)
	}
	return x
}

// caseOf is a bound on an index of the goal that b distinguishes cases by
func caseOf(b *Node) *Node {
	if len(goalVars) == 0 {
		return nil
	}
	pos, neg := map[*Node]bool{}, map[*Node]bool{}
	var best *Node
	var walk func(x *Node)
	walk = func(x *Node) {
		switch x.kind {
		case KAnd, KOr:
			for _, y := range x.args {
				walk(y)
			}
		case KNot:
			if y := x.args[0]; y.kind == KGe0 {
				if neg[y] = true; best == nil && pos[y] {
					best = y
				}
			} else {
				walk(y)
			}
		case KGe0:
			if pos[x] = true; best == nil && neg[x] {
				best = x
			}
		}
	}
	walk(b)
	if best != nil {
		for _, k := range goalVars {
			if contains(best, k) {
				return best
			}
		}
	}
	return nil
}

// literalIn picks the condition on which a formula is decided
func literalIn(b *Node) *Node {
	var best *Node
	rank := func(x *Node) int {
		switch {
		case x.kind == KGe0 || x.kind == KEq0 && x.args[0].sort == SInt:
			return 3
		case x.kind == KForAll:
			return 1
		}
		return 2
	}
	var walk func(x *Node)
	walk = func(x *Node) {
		switch x.kind {
		case KAnd, KOr, KNot:
			for _, y := range x.args {
				walk(y)
			}
		case KTrue, KFalse:
		default:
			if best == nil || rank(x) > rank(best) {
				best = x
			}
		}
	}
	walk(b)
	return best
}

// goalVars are the arbitrary indices of the goal being shown
var goalVars []*Node

func stuck(b *Node) {
	if os.Getenv("DBGH") == "" || b.kind != KApp && (b.kind != KEq0 || b.args[0].sort != SField) {
		return
	}
	stuckN++
	println("STUCK", b.kind, clip(show(b), 300))
	for _, f := range facts.list {
		if f.kind == KNot {
			f = f.args[0]
		}
		if f.kind == b.kind && (b.kind == KApp && b.name == f.name || b.kind == KEq0 && f.args[0].sort == b.args[0].sort && b.args[0].sort == SField) {
			x, y := firstDiff(b, f)
			if x != nil {
				a, b := termsText(x), termsText(y)
				for k := range a {
					if !b[k] {
						println("   <<", clip(k, 1500))
					}
				}
				for k := range b {
					if !a[k] {
						println("   >>", clip(k, 1500))
					}
				}
			}
		}
	}
}

func termsText(n *Node) map[string]bool {
	r := map[string]bool{}
	if n.kind == KSum {
		n = n.args[0]
	}
	if n.sort != SInt && n.sort != SField {
		r[clip(show(n), 300)] = true
		return r
	}
	for _, t := range termsOf(n) {
		x := t.C.RatString()
		for _, f := range t.M {
			h := f.A.name
			if f.A.kind == KIdx {
				h += "[]" + f.A.args[0].name
			}
			x += " * " + h + "#" + clip(show(f.A), 130)
		}
		r[x] = true
	}
	return r
}

var stuckN int

// firstDiff finds the smallest subterms in which two terms differ
func firstDiff(a, b *Node) (*Node, *Node) {
	if a == b {
		return nil, nil
	}
	if a.kind != b.kind || a.name != b.name || len(a.args) != len(b.args) || len(a.terms) != len(b.terms) {
		return a, b
	}
	for i := range a.args {
		if x, y := firstDiff(a.args[i], b.args[i]); x != nil {
			return x, y
		}
	}
	used := map[string]bool{}
	for _, t := range b.terms {
		used[factorsKey(t.M)+t.C.RatString()] = true
	}
	var l []Term
	in := map[string]bool{}
	for _, t := range a.terms {
		in[factorsKey(t.M)+t.C.RatString()] = true
		if !used[factorsKey(t.M)+t.C.RatString()] {
			l = append(l, t)
		}
	}
	for _, u := range b.terms {
		if in[factorsKey(u.M)+u.C.RatString()] {
			continue
		}
		for _, t := range l {
			if len(t.M) != len(u.M) {
				continue
			}
			for i := range t.M {
				found := false
				for _, g := range u.M {
					found = found || g.A == t.M[i].A
				}
				if found {
					continue
				}
				for _, g := range u.M {
					if g.A.kind == t.M[i].A.kind && g.A.name == t.M[i].A.name {
						return firstDiff(t.M[i].A, g.A)
					}
				}
			}
		}
	}
	return a, b
}

// instancesAt are the facts about every index, taken at k
func instancesAt(k, goal *Node) []*Node {
	var l []*Node
	var shifts map[*Node][]*Node
	for _, f := range facts.list {
		if f.kind != KForAll || f.bv != 0 {
			continue
		}
		hi := f.args[2]
		at := []*Node{k}
		if shifts == nil {
			shifts = shiftsOf(goal, k)
		}
		if len(shifts) > 0 {
			// where the fact speaks of the same elements as the goal
			for h, cs := range shiftsOf(f.args[0], f.args[1]) {
				for _, c := range cs {
					for _, d := range shifts[h] {
						if i := Sub(Add(k, d), c); i != k && !member(at, i) {
							at = append(at, i)
						}
					}
				}
			}
			sort.Slice(at[1:], func(i, j int) bool { return at[1+i].id < at[1+j].id })
			if len(at) > 5 {
				at = at[:5]
			}
		}
		for _, i := range at {
			if i == k {
				if hi != k.info.hi && !nonneg(Sub(Sub(hi, k), IntC(1))) {
					continue
				}
			} else if !nonneg(i) || !nonneg(Sub(Sub(hi, i), IntC(1))) {
				continue
			}
			x := Subst(f.args[0], map[*Node]*Node{f.args[1]: i})
			known := true
			for _, c := range conjuncts(x) {
				if c.kind == KNot {
					if v, ok := facts.truth[c.args[0]]; !ok || v {
						known = false
					}
				} else if v, ok := facts.truth[c]; (!ok || !v) && c != NTrue {
					known = false
				}
			}
			if !known {
				l = append(l, x)
			}
		}
	}
	return l
}

func member(l []*Node, x *Node) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// shiftsOf are the c for which the elements k+c of an array are mentioned
func shiftsOf(n, k *Node) map[*Node][]*Node {
	key := [2]*Node{n, k}
	if r, ok := shiftMemo[key]; ok {
		return r
	}
	r := map[*Node][]*Node{}
	walkNodes(n, func(x *Node) bool {
		if x.kind == KIdx && x.args[0].bv == 0 && contains(x.args[1], k) {
			if c := Sub(x.args[1], k); !contains(c, k) && c.bv == 0 && !member(r[x.args[0]], c) {
				r[x.args[0]] = append(r[x.args[0]], c)
			}
		}
		return true
	})
	shiftMemo[key] = r
	return r
}

var shiftMemo = map[[2]*Node]map[*Node][]*Node{}

// unrolled replaces the recurrences that are one iteration ahead of another one by their last step
func unrolled(a, b *Node) (*Node, *Node, bool) {
	var its []*Node
	for _, n := range []*Node{a, b} {
		walkNodes(n, func(x *Node) bool {
			if x.kind == KIter && x.bv == 0 {
				its = append(its, x)
			}
			return true
		})
	}
	m := map[*Node]*Node{}
	for _, x := range its {
		for _, y := range its {
			if x.n == y.n && isOne(Sub(x.args[0], y.args[0])) && nonneg(y.args[0]) && m[x] == nil {
				m[x] = lastStep(x)
			}
		}
	}
	if len(m) == 0 {
		for i, x := range its {
			for _, y := range its[:i] {
				if d := shift(x, y); d != nil && !contains(y, x) && m[x] == nil && m[y] == nil {
					m[x] = Add(y, d)
				}
			}
		}
	}
	if len(m) == 0 {
		for i, x := range its {
			for _, y := range its[:i] {
				if m[x] == nil && m[y] == nil && sameIter(x, y) {
					m[x] = y
				}
			}
		}
	}
	if len(m) == 0 {
		for i, x := range its {
			for _, y := range its[:i] {
				if m[x] == nil && m[y] == nil && x.sort == SArr && iterDepth <= 3 {
					if within := sameIterWithin(x, y, readAt(x, a, b), readAt(y, a, b)); within {
						m[x] = y
					}
				}
			}
		}
	}
	if len(m) == 0 {
		return a, b, false
	}
	return Rebuild(Subst(a, m)), Rebuild(Subst(b, m)), true
}

// readAt lists the positions at which an array is read; nil if it is used otherwise
func readAt(x, a, b *Node) []*Node {
	var l []*Node
	ok := true
	for _, n := range []*Node{a, b} {
		walkNodes(n, func(p *Node) bool {
			if !ok {
				return false
			}
			if p.kind == KIdx && p.args[0] == x {
				if p.args[1].bv != 0 {
					ok = false
				}
				l = append(l, p.args[1])
				return false
			}
			if p == x {
				ok = false
			}
			return true
		})
	}
	if !ok {
		return nil
	}
	return l
}

// sameIterWithin tells whether two recurrences on arrays agree on the positions at which they are read, because they
// agree on all the positions below some bound and use no other to compute them
func sameIterWithin(x, y *Node, at1, at2 []*Node) bool {
	if at1 == nil || at2 == nil || x.n != y.n || x.args[0] != y.args[0] {
		return false
	}
	p, q := openIter(x), openIter(y)
	sub := map[*Node]*Node{q.k: p.k}
	for i := range p.phi {
		if p.phi[i].sort != SArr || q.phi[i].sort != SArr || p.phi[i].sig != q.phi[i].sig || p.phi[i].sig.Dims != 1 {
			return false
		}
		sub[q.phi[i]] = p.phi[i]
	}
	key := [3]int{x.id, y.id, -facts.version - 1}
	if r, ok := iterMemo[key]; ok {
		return r
	}
	iterMemo[key] = false
	z := openIdx()
	// the bounds to try
	var bounds []*Node
	add := func(b *Node) {
		for _, c := range bounds {
			if b == c {
				return
			}
		}
		if b != nil && !contains(b, z) && !contains(b, p.k) && len(bounds) < 4 {
			bounds = append(bounds, b)
		}
	}
	for _, e := range append(append([]*Node{}, at1...), at2...) {
		if e.info != nil {
			add(e.info.hi)
		}
	}
	for i := range p.phi {
		for _, st := range []*Node{p.step[i], Subst(q.step[i], sub)} {
			walkNodes(Apply(st, z), func(n *Node) bool {
				if n.kind == KGe0 && n.bv == 0 {
					e := n.args[0]
					if cf, rest, ok := linearAtom(e, z); ok {
						if cf.Cmp(ratOne) == 0 {
							add(Neg(rest))
						} else if cf.Cmp(ratNeg) == 0 {
							add(Add(rest, IntC(1)))
						}
					}
				}
				return true
			})
		}
	}
	below := func(e, l *Node) bool { return nonneg(e) && nonneg(Sub(Sub(l, e), IntC(1))) }
	try := func(l *Node) bool {
		for _, e := range append(append([]*Node{}, at1...), at2...) {
			if !below(e, l) {
				return false
			}
		}
		z.info.hi = l
		defer func() { z.info.hi = nil }()
		ok := true
		withFacts([]*Node{Le(Add(z, IntC(1)), l)}, func() {
			for i := range p.phi {
				if ok = ok && provable(mkSame(Rebuild(Apply(p.init[i], z)), Rebuild(Apply(q.init[i], z))), 2); !ok {
					return
				}
			}
		})
		if !ok {
			return false
		}
		withFacts([]*Node{Le(IntC(1), p.n), Le(Add(z, IntC(1)), l)}, func() {
			for i := range p.phi {
				s, r := Rebuild(Apply(p.step[i], z)), Rebuild(Apply(Subst(q.step[i], sub), z))
				for _, st := range []*Node{s, r} {
					for _, f := range p.phi {
						if !readsBelow(st, f, l) {
							ok = false
							return
						}
					}
				}
				if ok = equalNodes1(s, r); !ok {
					return
				}
			}
		})
		return ok
	}
	iterDepth++
	defer func() { iterDepth-- }()
	for _, l := range bounds {
		if try(l) {
			iterMemo[key] = true
			return true
		}
	}
	return false
}

// readsBelow tells whether the array f is only read at positions from zero to l, l excluded
func readsBelow(n, f, l *Node) bool {
	if !contains(n, f) {
		return true
	}
	if n == f {
		return false
	}
	if n.kind == KIdx && n.args[0] == f {
		e := n.args[1]
		if !readsBelow(e, f, l) {
			return false
		}
		return nonneg(e) && nonneg(Sub(Sub(l, e), IntC(1)))
	}
	if n.terms != nil {
		for _, t := range n.terms {
			var ctx []*Node
			for _, x := range t.M {
				if x.A.kind == KInd && !contains(x.A, f) {
					ctx = append(ctx, x.A.args[0])
				}
			}
			ok := true
			check := func() {
				for _, x := range t.M {
					ok = ok && (impossible() || readsBelow(x.A, f, l))
				}
			}
			if len(ctx) > 0 {
				withFacts(ctx, check)
			} else {
				check()
			}
			if !ok {
				return false
			}
		}
		return true
	}
	if n.kind == KSum {
		ks, b := openSum(n)
		_ = ks
		return readsBelow(b, f, l)
	}
	for _, a := range n.args {
		if !readsBelow(a, f, l) {
			return false
		}
	}
	return true
}

var iterDepth int

var iterMemo = map[[3]int]bool{}

// sameIter tells whether two recurrences with as many iterations have equal initial values and steps
func sameIter(x, y *Node) bool {
	if x == y || x.n != y.n || x.sort != y.sort || x.args[0] != y.args[0] || iterDepth > 1 {
		return false
	}
	key := [3]int{x.id, y.id, facts.version}
	if r, ok := iterMemo[key]; ok {
		return r
	}
	iterMemo[key] = false
	p, q := openIter(x), openIter(y)
	sub := map[*Node]*Node{q.k: p.k}
	for i := range p.phi {
		if p.phi[i].sort != q.phi[i].sort || p.phi[i].sig != q.phi[i].sig {
			return false
		}
		sub[q.phi[i]] = p.phi[i]
	}
	iterDepth++
	defer func() { iterDepth-- }()
	for i := range p.phi {
		if !sameEverywhere(p.init[i], q.init[i]) {
			return false
		}
	}
	ok := true
	withFacts([]*Node{Le(IntC(1), p.n)}, func() {
		for i := range p.phi {
			if ok = sameEverywhere(p.step[i], Subst(q.step[i], sub)); !ok {
				return
			}
		}
	})
	iterMemo[key] = ok
	return ok
}

// sameEverywhere compares two values, position by position for arrays
func sameEverywhere(a, b *Node) bool {
	for a.sort == SArr && b.sort == SArr {
		if a == b {
			return true
		}
		x := openIdx()
		a, b = Apply(a, x), Apply(b, x)
	}
	return equalNodes1(a, b)
}

// shift is the constant difference between two numbers defined by recurrences, if there is one
func shift(x, y *Node) *Node {
	if x == y || x.n != 1 || y.n != 1 || x.sort != y.sort || x.sort != SField && x.sort != SInt || x.args[0] != y.args[0] {
		return nil
	}
	p, q := openIter(x), openIter(y)
	d := Sub(p.init[0], q.init[0])
	if isZero(d) {
		return nil
	}
	st := Subst(p.step[0], map[*Node]*Node{p.k: q.k, p.phi[0]: Add(q.phi[0], d)})
	if isZero(Sub(Sub(st, q.step[0]), d)) {
		return d
	}
	return nil
}

var unrolling int

// lastStep is a recurrence of at least one iteration, in terms of its value one iteration earlier
func lastStep(x *Node) *Node {
	it := openIter(x)
	n := Sub(it.n, IntC(1))
	sub := map[*Node]*Node{it.k: n}
	for i, p := range it.phi {
		c := *it
		c.n, c.sel = n, i
		c.step = append([]*Node{}, it.step...)
		sub[p] = c.close()
	}
	return Subst(it.step[0], sub)
}

// equalNodes tries harder than pointer equality
func equalNodes(a, b *Node) bool {
	if equalNodes1(a, b) {
		return true
	}
	if a.sort == SInt || a.sort == SField {
		return false // tried by provable
	}
	a, b, ok := unrolled(a, b)
	return ok && equalNodes1(a, b)
}

func equalNodes1(a, b *Node) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort {
		return false
	}
	switch a.sort {
	case SInt, SField:
		d := Rebuild(Sub(a, b))
		if !isZero(d) {
			d = unifyApps(d)
		}
		if dbgEq && !isZero(d) {
			println("EQ", clip(show(mkEq0(d)), 400))
			for _, f := range facts.list {
				println("   F", clip(show(f), 200))
			}
		}
		return isZero(d) || provable(mkEq0(d), 3)
	case SBool:
		r := false
		p := func(x, y *Node) bool {
			ok := false
			withFacts([]*Node{x}, func() { ok = Rebuild(y) == NTrue })
			return ok
		}
		r = p(a, b) && p(b, a)
		return r
	}
	if a.kind == KApp && b.kind == KApp && a.name == b.name && len(a.args) == len(b.args) {
		for i := range a.args {
			if a.args[i].sort == SArr || !equalNodes(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// appPaths lists the paths of the arguments of the values computed by opaque functions
var appPaths = map[string][]string{}

var unifyDepth int

// unifyApps replaces results of opaque functions applied to equal arguments by one another
func unifyApps(d *Node) *Node {
	if unifyDepth > 1 {
		return d
	}
	byName := map[string][]*Node{}
	seen := map[*Node]bool{}
	for _, t := range termsOf(d) {
		for _, f := range t.M {
			if a := appOf(f.A); a != nil && appPaths[a.name] != nil && !seen[a] {
				seen[a] = true
				byName[a.name] = append(byName[a.name], a)
			}
		}
	}
	unifyDepth++
	defer func() { unifyDepth-- }()
	m := map[*Node]*Node{}
	for _, l := range byName {
		for i, a := range l {
			for _, b := range l[:i] {
				if m[b] == nil && m[a] == nil && !contains(b, a) && sameArgs(a, b) {
					m[a] = b
				}
			}
		}
	}
	if len(m) == 0 {
		return d
	}
	return Rebuild(Subst(d, m))
}

// appOf is the application a value is read from
func appOf(n *Node) *Node {
	for n.kind == KIdx {
		n = n.args[0]
	}
	if n.kind == KApp {
		return n
	}
	return nil
}

// sameArgs compares the arguments of an opaque function, the content of slices within their length
func sameArgs(a, b *Node) bool {
	paths := appPaths[a.name]
	if len(a.args) != len(b.args) || len(a.args) != len(paths) {
		return false
	}
	for i := range a.args {
		x, y := a.args[i], b.args[i]
		if x == y {
			continue
		}
		if x.sort != SArr {
			if !equalNodes1(x, y) {
				return false
			}
			continue
		}
		if !sameWithin(x, y, a, b, i, paths[i], "", nil) {
			return false
		}
	}
	return true
}

// sameWithin compares arrays within the lengths that precede them among the arguments
func sameWithin(x, y, a, b *Node, i int, rest, prefix string, ctx []*Node) bool {
	if x.sort != SArr || y.sort != SArr {
		ok := false
		withFacts(ctx, func() { ok = equalNodes1(Rebuild(x), Rebuild(y)) })
		return ok
	}
	k := strings.Index(rest, "[]")
	if k < 0 {
		return false
	}
	var n *Node
	for j := i - 1; j >= 0; j-- {
		if appPaths[a.name][j] == prefix+rest[:k]+"#len" && a.args[j].sort == SInt {
			if a.args[j] == b.args[j] {
				n = a.args[j]
			}
			break
		}
	}
	next := prefix + rest[:k] + "[]"
	if n != nil {
		if c, ok := constOf(n); ok && c.IsInt() && c.Num().IsInt64() && c.Num().Int64() <= 8 {
			for p := int64(0); p < c.Num().Int64(); p++ {
				if !sameWithin(Apply(x, IntC(p)), Apply(y, IntC(p)), a, b, i, rest[k+2:], next, ctx) {
					return false
				}
			}
			return true
		}
	}
	z := openIdx()
	if n != nil {
		z.info.hi = n
		ctx = append(append([]*Node{}, ctx...), Le(Add(z, IntC(1)), n))
	}
	return sameWithin(Apply(x, z), Apply(y, z), a, b, i, rest[k+2:], next, ctx)
}

var _ = big.NewInt

var dbgEq = os.Getenv("DBGEQ") != ""

func mkSame(a, b *Node) *Node {
	if a.sort == SInt || a.sort == SField {
		return mkEq0(Sub(a, b))
	}
	if a == b {
		return NTrue
	}
	return NFalse
}
