package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Loop summarisation. A loop is executed symbolically once, on an arbitrary iteration k, the cells
// it modifies standing for their value at the start of the iteration. This gives recurrence
// equations, which are solved (sums, products, pointwise array updates...) or left as a canonical
// recurrence term. No iteration is ever enumerated.

// rec is one recurrence
type rec struct {
	ln   *Node // the length of a slice after iteration k
	key  string
	phi  *Node
	init *Node
	step *Node
	cl   *Node // value at the start of iteration t
	bad  bool
}

// unit is a variable holding references that change: it is followed by its content
type unit struct {
	obj   *Object
	typ   types.Type
	paths []string
	phis  map[string]*Node
	objs  []string
}

type loopCtx struct {
	in    *Interp
	key   string
	label string
	redo  []string              // objects to follow by content
	cond  func(st *State) *Node // nil: known trip count
	n     *Node
	body  func(st *State, k *Node) Out
	post  func(st *State)
	mod   map[string]bool // modified cells
	units map[string]bool // objects followed by content
}

func (in *Interp) forStmt(st *State, s *ast.ForStmt, label string) Out {
	if s.Init != nil {
		st = in.stmt(st, s.Init).st
	}
	if s.Cond == nil {
		in.fail("loop without a condition")
	}
	mk := func() *loopCtx {
		lc := &loopCtx{in: in, label: label, key: fmt.Sprintf("%s:for#%d", in.frame.callKey, int(s.Pos()))}
		lc.cond = func(st *State) *Node { return in.eval(st, s.Cond).node() }
		lc.body = func(st *State, k *Node) Out { return in.block(st, s.Body.List) }
		if s.Post != nil {
			lc.post = func(st *State) {
				if o := in.stmt(st, s.Post); o.st != st {
					st.cells = o.st.cells
				}
			}
		}
		return lc
	}
	lc := mk()
	if smallBound(in.frame.pkg.info, s) && plainBody(s.Body) {
		if o, ok := lc.unroll(st); ok {
			return o
		}
	}
	if o, ok := in.splitFor(st, s, mk); ok {
		return o
	}
	return lc.run(st)
}

// smallBound tells whether the condition of a loop compares with a small constant
func smallBound(info *types.Info, s *ast.ForStmt) bool {
	b, ok := s.Cond.(*ast.BinaryExpr)
	if !ok {
		return false
	}
	for _, e := range []ast.Expr{b.X, b.Y} {
		if v := info.Types[e].Value; v != nil {
			if c, ok := constant.Int64Val(constant.ToInt(v)); ok && c >= -1 && c <= unrollMax {
				return true
			}
		}
	}
	return false
}

// rangesOverRefs: the values ranged over are written out, or refer to variables
func rangesOverRefs(x ast.Expr, t types.Type) bool {
	if _, ok := ast.Unparen(x).(*ast.CompositeLit); ok {
		return true
	}
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Array:
		e = u.Elem()
	default:
		return false
	}
	switch e.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// plainBody: the body starts no goroutine and creates no function
func plainBody(b *ast.BlockStmt) bool {
	ok := true
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.GoStmt, *ast.FuncLit, *ast.DeferStmt:
			ok = false
		}
		return ok
	})
	return ok
}

// unroll executes a loop of a small constant number of iterations one after the other
func (lc *loopCtx) unroll(st *State) (out Out, ok bool) {
	in := lc.in
	if lc.n != nil {
		c, ok := constOf(lc.n)
		if !ok || !c.IsInt() || c.Cmp(big.NewRat(unrollMax, 1)) > 0 {
			return out, false
		}
	} else {
		in.quiet++
		c := lc.cond(st.clone())
		in.quiet--
		if c != NTrue {
			return out, false
		}
		st = st.clone()
	}
	ev0, key := len(in.events), in.frame.callKey
	defer func() { in.frame.callKey = key }()
	ok = true
	var seq func(st *State, i int) Out
	seq = func(st *State, i int) Out {
		if lc.n != nil {
			if c, _ := constOf(lc.n); c.Cmp(big.NewRat(int64(i), 1)) <= 0 {
				return Out{st: st}
			}
		} else {
			switch lc.cond(st) {
			case NFalse:
				return Out{st: st}
			case NTrue:
				if i < unrollMax {
					break
				}
				fallthrough
			default:
				ok = false
				return Out{}
			}
		}
		in.frame.callKey = fmt.Sprintf("%s~%d", key, i)
		o := lc.body(st, IntC(int64(i)))
		in.frame.callKey = key
		left := NTrue
		for j := len(o.conts) - 1; j >= 0; j-- {
			if c := o.conts[j]; c.label != "" && c.label != lc.label {
				in.fail("continue of an outer loop")
			} else {
				o.st = mergeStates(c.g, c.st, o.st)
			}
		}
		lc.ownBreaks(o.brks)
		if len(o.rets)+len(o.brks) > 0 {
			left = notLeft(Out{rets: o.rets, brks: o.brks})
		}
		out := Out{rets: o.rets}
		join := func(r Out) Out {
			for j := len(o.brks) - 1; j >= 0; j-- {
				r.st = mergeStates(o.brks[j].g, o.brks[j].st, r.st)
			}
			return r
		}
		if o.st == nil {
			return join(out)
		}
		if lc.post != nil {
			lc.post(o.st)
		}
		var r Out
		if left == NTrue {
			r = seq(o.st, i+1)
		} else {
			in.under(left, func() { r = seq(o.st, i+1) })
		}
		if len(o.brks) > 0 {
			r = guarded(r, notLeft(Out{brks: o.brks}))
		}
		out.rets = append(out.rets, r.rets...)
		out.st = r.st
		return join(out)
	}
	out = seq(st, 0)
	if !ok {
		in.events = in.events[:ev0]
	}
	return out, ok
}

func (in *Interp) rangeStmt(st *State, s *ast.RangeStmt, label string) Out {
	lc := &loopCtx{in: in, label: label, key: fmt.Sprintf("%s:range#%d", in.frame.callKey, int(s.Pos()))}
	xt := in.typeOf(s.X)
	tInt := types.Typ[types.Int]
	var elem func(st *State, k *Node) Val
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		x := in.eval(st, s.X)
		lc.n = x.l[2]
		elem = func(st *State, k *Node) Val {
			if x.l[0] == zeroOf(SRef) {
				return zeroVal(u.Elem())
			}
			return in.load(st, addrIndex(x.l[0], Add(x.l[1], k), false), u.Elem())
		}
	case *types.Array:
		if in.addressable(s.X) {
			a := in.addrOf(st, s.X)
			elem = func(st *State, k *Node) Val { return in.load(st, addrIndex(a, k, true), u.Elem()) }
			if s.Value != nil {
				// the array is copied before the loop
				x := in.load(st, a, xt)
				elem = func(st *State, k *Node) Val {
					r := Val{t: u.Elem()}
					for _, n := range x.l {
						r.l = append(r.l, Apply(n, k))
					}
					return r
				}
			}
		} else {
			x := in.eval(st, s.X)
			elem = func(st *State, k *Node) Val {
				r := Val{t: u.Elem()}
				for _, n := range x.l {
					r.l = append(r.l, Apply(n, k))
				}
				return r
			}
		}
		lc.n = IntC(u.Len())
	case *types.Pointer:
		at, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			in.fail("range over %v", xt)
		}
		a := in.eval(st, s.X).node()
		lc.n = IntC(at.Len())
		elem = func(st *State, k *Node) Val { return in.load(st, addrIndex(a, k, true), at.Elem()) }
	case *types.Chan:
		return in.rangeChan(st, s, label)
	default:
		in.fail("range over %v", xt)
	}
	lc.body = func(st *State, k *Node) Out {
		set := func(e ast.Expr, v func() Val) {
			if e == nil {
				return
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					return
				}
				if s.Tok == token.DEFINE {
					obj := in.frame.pkg.info.Defs[id]
					in.declare(st, obj, v())
					if in.prog.sharedLoopVars && obj != nil {
						// the variable is the same in all iterations
						o := in.obj(in.frame.vars[obj])
						if n := len(o.args); n > 0 && o.args[n-1] == k {
							o.shared = n
						}
						for _, l := range leaves(o.elem) {
							in.access(o.addr(), l.path, true)
						}
					}
					return
				}
			}
			x := v()
			in.lvalue(st, e).store(x)
		}
		set(s.Key, func() Val { return scalar(tInt, k) })
		set(s.Value, func() Val { return elem(st, k) })
		return in.block(st, s.Body.List)
	}
	if plainBody(s.Body) && rangesOverRefs(s.X, xt) {
		if o, ok := lc.unroll(st); ok {
			return o
		}
	}
	if o, ok := in.splitRange(st, s, lc.n, func() *loopCtx {
		c := *lc
		c.key = fmt.Sprintf("%s:range#%d", in.frame.callKey, int(s.Pos()))
		return &c
	}); ok {
		return o
	}
	return lc.run(st)
}

func (in *Interp) rangeChan(st *State, s *ast.RangeStmt, label string) Out {
	in.fail("range over a channel")
	return Out{}
}

// passResult is the effect of one arbitrary iteration
type passResult struct {
	start *State
	end   *State
	rets  []Ret
	brks  []Jump
	cond  *Node
	k     *Node
	units []*unit
	phis  map[string]*Node
}

func objOfCell(c string) string { return c[:strings.IndexByte(c, '|')] }

// inUnit tells that a cell is part of what is followed as a whole; the keys of a map and the counters of a
// channel are cells of their own
func (lc *loopCtx) inUnit(c string) bool {
	if !lc.units[objOfCell(c)] {
		return false
	}
	switch c[strings.IndexByte(c, '|')+1:] {
	case "#has", "#sent", "#recv":
		return false
	}
	return true
}

func isSpecial(c string) bool { return c == assertCell || c == panicCell }

func mkExists(k, b *Node) *Node { return Not(mkForAll(k, Not(b))) }

// closedInts: cells with a known closed form in t
func (lc *loopCtx) pass(st *State, k *Node, closed map[string]*Node, t *Node) *passResult {
	in := lc.in
	r := &passResult{k: k, phis: map[string]*Node{}}
	in.loops = append(in.loops, k)
	defer func() { in.loops = in.loops[:len(in.loops)-1] }()
	s := st.clone()
	s.cells[assertCell], s.cells[panicCell] = NTrue, NFalse
	phi := func(key string, old *Node) *Node {
		if c, ok := closed[key]; ok {
			if r.phis[key] == nil {
				r.phis[key] = newSym("closed", SRef, nil) // occurs nowhere
			}
			return Subst(c, map[*Node]*Node{t: k})
		}
		p := r.phis[key]
		if p == nil {
			switch old.sort {
			case SArr:
				p = newArrSym("phi", old.sig)
			default:
				p = newSym("phi", old.sort, nil)
			}
			if strings.HasSuffix(key, "#len") && old.sort == SInt {
				p.info = &SymInfo{lo: IntC(0), nat: true}
			}
			if strings.HasSuffix(key, "#len") && p.sort == SArr {
				natArrays[p.name] = true
			}
			r.phis[key] = p
		}
		return p
	}
	for _, c := range sortedBools(lc.mod) {
		if lc.inUnit(c) || isSpecial(c) {
			continue
		}
		s.cells[c] = phi(c, st.cells[c])
	}
	for _, id := range sortedBools(lc.units) {
		o := in.objs[id]
		u := &unit{obj: o, typ: o.elem, phis: map[string]*Node{}}
		deep := in.unitDeep(st, o)
		known := map[string]*Node{}
		for _, d := range deep {
			known[d.path] = d.n
		}
		in.setUnit(s, o, "phi:"+lc.key+":"+id, func(path string, srt Sort, idx []*Node) *Node {
			key := "unit:" + id + "|" + path
			old := known[path]
			if old == nil {
				if len(idx) == 0 {
					return newSym("phi", srt, nil)
				}
				return ApplyAll(newArrSym("phi", Sig{len(idx), srt}), idx...)
			}
			p := phi(key, old)
			if len(idx) > 0 && p.sort != SArr {
				return p
			}
			return ApplyAll(p, idx...)
		})
		for _, d := range deep {
			u.paths = append(u.paths, d.path)
		}
		r.units = append(r.units, u)
	}
	r.start = s.clone()
	var facts []*Node
	if lc.cond != nil {
		r.cond = lc.cond(s)
		if k.info.hi == nil {
			facts = []*Node{r.cond}
		}
	}
	if k.info.hi != nil {
		if c := Lt(IntC(0), k.info.hi); c.kind != KTrue && c.kind != KFalse {
			facts = append(facts, c)
		}
	}
	var out Out
	body := func() { out = lc.body(s, k) }
	if len(facts) > 0 {
		withFacts(facts, body)
	} else {
		body()
	}
	lc.ownBreaks(out.brks)
	for i := len(out.conts) - 1; i >= 0; i-- {
		c := out.conts[i]
		if c.label != "" && c.label != lc.label {
			in.fail("continue of an outer loop")
		}
		out.st = mergeStates(c.g, c.st, out.st)
	}
	r.rets = out.rets
	r.brks = out.brks
	r.end = out.st
	if r.end != nil && lc.post != nil {
		lc.post(r.end)
	}
	return r
}

func sortedBools(m map[string]bool) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// changed finds the cells modified by an iteration that are not known to be
func (lc *loopCtx) changed(st *State, r *passResult) bool {
	found := false
	if r.end == nil {
		return false
	}
	in := lc.in
	for c, old := range st.cells {
		if isSpecial(c) {
			continue
		}
		n, ok := r.end.cells[c]
		if !ok || n == r.start.cells[c] {
			continue
		}
		id := objOfCell(c)
		if lc.inUnit(c) {
			continue
		}
		o := in.objs[id]
		// references held by a variable that change: follow the content
		if o != nil && old.sort == SRef && !lc.units[id] && !o.backing && followed(o.elem) {
			lc.units[id] = true
			found = true
			continue
		}
		if !lc.mod[c] {
			lc.mod[c] = true
			found = true
		}
	}
	return found
}

// followed tells whether the content of a type can be followed through references
func followed(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return followed(u.Elem())
	case *types.Struct:
		if isOpaqueStruct(t) || isFieldType(t) {
			return true
		}
		for i := 0; i < u.NumFields(); i++ {
			if !followed(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return followed(u.Elem())
	case *types.Pointer:
		return isOpaqueStruct(u.Elem()) || followed(u.Elem())
	case *types.Map, *types.Chan, *types.Signature:
		return false
	}
	return true
}

func (lc *loopCtx) run(st *State) Out {
	in := lc.in
	ev0 := len(in.events)
	if h := in.loopHints[lc.key]; h != nil {
		lc.mod, lc.units = map[string]bool{}, map[string]bool{}
		for c := range h.mod {
			if _, ok := st.cells[c]; ok {
				lc.mod[c] = true
			}
		}
		for c := range h.units {
			if in.objs[c] != nil {
				lc.units[c] = true
			}
		}
	} else {
		lc.mod, lc.units = map[string]bool{}, map[string]bool{}
	}
	if lc.n != nil {
		if c, ok := constOf(lc.n); ok && c.Sign() <= 0 {
			return Out{st: st}
		}
	} else if c := func() *Node { in.quiet++; defer func() { in.quiet-- }(); return lc.cond(st.clone()) }(); c == NFalse {
		return Out{st: st}
	}
	t := newSym("t", SInt, &SymInfo{lo: IntC(0), nat: true, loop: true})
	closed := map[string]*Node{}
	n := lc.n
	var r *passResult
	for iter := 0; ; iter++ {
		if iter > 40 {
			in.fail("the cells modified by a loop could not be determined")
		}
		in.events = in.events[:ev0]
		var k *Node
		if n != nil {
			k = loopSym("k", n)
		} else {
			k = newSym("k", SInt, &SymInfo{lo: IntC(0), nat: true, loop: true})
		}
		unknown := lc.tryPass(st, func() {
			if n != nil {
				withFacts([]*Node{Le(IntC(1), n)}, func() { r = lc.pass(st, k, closed, t) })
			} else {
				r = lc.pass(st, k, closed, t)
			}
		})
		if unknown || lc.changed(st, r) {
			// the closed forms found so far may be wrong
			closed = map[string]*Node{}
			n = lc.n
			continue
		}
		if r.end == nil {
			break
		}
		// integers with a closed form
		more := lc.intForms(st, r, closed, t)
		if n == nil {
			c := Subst(r.cond, lc.phiMap(r, closed, t, k))
			for _, p := range r.phis {
				if contains(c, p) && more {
					c = nil
					break
				}
			}
			if c == nil {
				continue
			}
			n = lc.tripCount(c, k)
			continue
		}
		if more {
			continue
		}
		break
	}
	in.setLoopHint(lc.key, lc.mod, lc.units)
	if c, ok := constOf(n); ok && c.Sign() <= 0 {
		in.events = in.events[:ev0]
		return Out{st: st}
	}
	if lc.n != nil || nonneg(n) {
		var o Out
		withFacts([]*Node{Le(IntC(0), n)}, func() { o = lc.finish(st, r, n, closed, t, ev0) })
		if lc.again() {
			in.events = in.events[:ev0]
			return lc.run(st)
		}
		return o
	}
	// the trip count may be negative: no iteration then
	c := Le(IntC(1), n)
	var a Out
	withFacts([]*Node{c}, func() { a = lc.finish(st.clone(), r, n, closed, t, ev0) })
	if lc.again() {
		in.events = in.events[:ev0]
		return lc.run(st)
	}
	return joinOuts(c, a, Out{st: st})
}

// backingRefs lists the arrays of references that the loop modifies
func (lc *loopCtx) backingRefs(st *State) []string {
	var l []string
	for _, c := range sortedBools(lc.mod) {
		id := objOfCell(c)
		o := lc.in.objs[id]
		if x := st.cells[c]; o == nil || x == nil || x.sort != SArr || x.sig.Elem != SRef || lc.units[id] || !followed(o.elem) {
			continue
		}
		l = append(l, id)
	}
	return l
}

// tryPass follows the arrays of references by content when an iteration uses references of other iterations
func (lc *loopCtx) tryPass(st *State, f func()) (unknown bool) {
	in := lc.in
	fr, stack, loops, quiet, nf := in.frame, in.callStack, in.loops, in.quiet, facts
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(undecided)
			l := lc.backingRefs(st)
			if !ok || !strings.Contains(u.msg, "an unknown address") || len(l) == 0 {
				panic(e)
			}
			in.frame, in.callStack, in.loops, in.quiet = fr, stack, loops, quiet
			facts = nf
			for _, id := range l {
				lc.units[id] = true
			}
			unknown = true
		}
	}()
	f()
	return
}

// again restarts the analysis when references could not be given a closed form
func (lc *loopCtx) again() bool {
	if len(lc.redo) == 0 {
		return false
	}
	h := lc.in.loopHints[lc.key]
	for _, id := range lc.redo {
		h.units[id] = true
	}
	lc.redo = nil
	return true
}

func (lc *loopCtx) phiMap(r *passResult, closed map[string]*Node, t, k *Node) map[*Node]*Node {
	m := map[*Node]*Node{}
	for key, p := range r.phis {
		if c, ok := closed[key]; ok {
			m[p] = Subst(c, map[*Node]*Node{t: k})
		}
	}
	return m
}

// recs lists the recurrences of the pass
func (lc *loopCtx) recs(st *State, r *passResult) []*rec {
	in := lc.in
	var l []*rec
	for _, c := range sortedBools(lc.mod) {
		if lc.inUnit(c) || isSpecial(c) || r.phis[c] == nil {
			continue
		}
		l = append(l, &rec{key: c, phi: r.phis[c], init: st.cells[c], step: r.end.cells[c]})
	}
	for _, u := range r.units {
		in.loops = append(in.loops, r.k)
		di := in.unitDeep(st, u.obj)
		ds := in.unitDeep(r.end, u.obj)
		in.loops = in.loops[:len(in.loops)-1]
		dm := map[string]*Node{}
		for _, d := range ds {
			dm[d.path] = d.n
		}
		for _, d := range di {
			key := "unit:" + u.obj.id + "|" + d.path
			if r.phis[key] == nil {
				continue
			}
			s := dm[d.path]
			if s == nil {
				in.fail("the shape of %s changes in a loop", u.obj.name)
			}
			l = append(l, &rec{key: key, phi: r.phis[key], init: d.n, step: s})
		}
	}
	return l
}

// withinLengths finds the lengths of the slices followed by content, and restricts the content of the slices followed by content to their length, when it does not change
func withinLengths(recs []*rec, k, t *Node) {
	by := map[string]*rec{}
	for _, x := range recs {
		by[x.key] = x
	}
	for _, x := range recs {
		i := strings.Index(x.key, "[]")
		if i < 0 || x.cl != nil || x.phi.sort != SArr || !strings.HasPrefix(x.key, "unit:") {
			continue
		}
		y := by[x.key[:i]+"#len"]
		if y == nil || y.cl == nil || y.cl.sort != SInt {
			continue
		}
		if contains(y.cl, t) {
			x.ln = countsAsBounds(Subst(y.cl, map[*Node]*Node{t: Add(k, IntC(1))}))
			continue
		}
		within := func(b *Node) *Node {
			z := openIdx()
			z.info.hi = y.cl
			return mkLam(z, Rebuild(Apply(b, z)))
		}
		x.step, x.init = within(x.step), within(x.init)
	}
}

// intForms looks for the integers having a closed form
func (lc *loopCtx) intForms(st *State, r *passResult, closed map[string]*Node, t *Node) bool {
	more := false
	recs := lc.recs(st, r)
	all := func(n *Node, except *Node) bool {
		for _, p := range r.phis {
			if p != except && contains(n, p) {
				return true
			}
		}
		return false
	}
	for _, x := range recs {
		if closed[x.key] != nil {
			continue
		}
		if x.step == x.phi {
			closed[x.key] = x.init
			more = true
			continue
		}
		if x.phi.sort == SArr {
			if f := intArrayForm(x, all, r.k, t); f != nil {
				closed[x.key] = f
				more = true
			}
			continue
		}
		if x.phi.sort != SInt {
			continue
		}
		// an invariant
		if contains(x.step, x.phi) && Subst(x.step, map[*Node]*Node{x.phi: x.init}) == x.init {
			closed[x.key] = x.init
			more = true
			continue
		}
		d := Sub(x.step, x.phi)
		if !all(d, nil) {
			if !contains(d, r.k) && !containsLoopObj(d) {
				closed[x.key] = Add(x.init, Mul(d, t))
				more = true
			} else {
				j := loopSym("k", t)
				closed[x.key] = Add(x.init, mkSum(j, Subst(d, map[*Node]*Node{r.k: j})))
				more = true
			}
			continue
		}
		// down to 0 by steps
		if c := stepDown(x, r.cond); c != nil && !all(c, nil) && !contains(c, r.k) && nonneg(x.init) {
			left := Sub(x.init, Mul(c, t))
			closed[x.key] = Ite(Le(IntC(0), left), left, IntC(0))
			more = true
			continue
		}
		// halving
		if x.step.kind == KDiv && x.step.args[0] == x.phi && !all(x.step.args[1], nil) && !contains(x.step.args[1], r.k) {
			if e := log2Of(x.step.args[1]); e != nil {
				closed[x.key] = mkDiv(x.init, P2(Mul(e, t)))
				more = true
				continue
			}
		}
		// exact halving and doubling
		if a, rest, ok := coefPoly(x.step, x.phi); ok && isZero(rest) && !all(a, nil) && !contains(a, r.k) {
			if e := log2Of(a); e != nil {
				closed[x.key] = Mul(x.init, P2(Mul(e, t)))
				more = true
				continue
			}
		}
		// the value does not depend on the previous one: f(k-1), or the initial value
		if !all(x.step, nil) && !contains(x.step, x.phi) {
			prev := Subst(x.step, map[*Node]*Node{r.k: Sub(t, IntC(1))})
			if prev == Subst(x.init, map[*Node]*Node{}) || Subst(prev, map[*Node]*Node{t: IntC(0)}) == x.init {
				closed[x.key] = prev
				more = true
			}
		}
	}
	return more
}

// stepDown is the c > 0 such that the step is the greatest of phi-c and 0
func stepDown(x *rec, cond *Node) *Node {
	from := int64(0)
	if cond != nil && Subst(cond, map[*Node]*Node{x.phi: IntC(0)}) == NFalse {
		// there is no iteration at 0
		from = 1
	}
	low := Le(IntC(from), x.phi)
	try := func(c *Node) bool {
		good := nonneg(Sub(c, IntC(1)))
		if good {
			withFacts([]*Node{low, Le(c, x.phi)}, func() { good = Rebuild(x.step) == Sub(x.phi, c) })
			if d, ok := constOf(c); ok && d.IsInt() && d.Cmp(big.NewRat(8, 1)) <= 0 {
				for i := from; i < d.Num().Int64(); i++ {
					good = good && Subst(x.step, map[*Node]*Node{x.phi: IntC(i)}) == IntC(0)
				}
			} else {
				withFacts([]*Node{low, Lt(x.phi, c)}, func() { good = good && Rebuild(x.step) == IntC(0) })
			}
		}
		return good
	}
	var l []*Node
	walkNodes(x.step, func(a *Node) bool {
		if a.kind == KEq0 && len(l) < 4 && contains(a, x.phi) {
			// phi < 1, phi < 2
			l = append(l, IntC(1), IntC(2))
		}
		if a.kind != KGe0 {
			return true
		}
		f, rest, ok := linearAtom(a.args[0], x.phi)
		if !ok || !f.IsInt() || f.Num().CmpAbs(big.NewInt(1)) != 0 {
			return true
		}
		// phi >= c, or phi >= c+1, and the opposites
		m := Neg(rest)
		if f.Sign() < 0 {
			m = Add(rest, IntC(1))
		}
		l = append(l, m, Sub(m, IntC(1)))
		return true
	})
	for i, c := range l {
		if i < 10 && !contains(c, x.phi) && try(c) {
			return c
		}
	}
	return nil
}

func containsLoopObj(n *Node) bool { return false }

// intArrayForm solves an array of integers (lengths) whose elements evolve independently, halved or doubled
// by every iteration or left alone, depending only on their position
func intArrayForm(x *rec, all func(n, except *Node) bool, k, t *Node) *Node {
	var xs []*Node
	self, init, step := x.phi, x.init, x.step
	for i := 0; i < x.phi.sig.Dims; i++ {
		y := openIdx()
		xs = append(xs, y)
		self, init, step = Apply(self, y), Apply(init, y), Apply(step, y)
	}
	if self.sort != SInt {
		return nil
	}
	me := newSym("self", SInt, nil)
	step = Subst(step, map[*Node]*Node{self: me})
	if all(step, nil) || contains(step, k) {
		return nil
	}
	var form func(step *Node, depth int) *Node
	form = func(step *Node, depth int) *Node {
		if step == me {
			return init
		}
		if c := indicatorIn(step); c != nil && depth > 0 && !contains(c, me) {
			var a, b *Node
			withFacts([]*Node{c}, func() { a = form(Rebuild(step), depth-1) })
			withFacts([]*Node{Not(c)}, func() { b = form(Rebuild(step), depth-1) })
			if a == nil || b == nil {
				return nil
			}
			return Ite(c, a, b)
		}
		if step.kind == KDiv && step.args[0] == me && !contains(step.args[1], me) {
			if e := log2Of(step.args[1]); e != nil {
				return mkDiv(init, P2(Mul(e, t)))
			}
		}
		if a, rest, ok := coefPoly(step, me); ok && isZero(rest) && !contains(a, me) {
			if e := log2Of(a); e != nil {
				return mkMulP2(init, Mul(e, t))
			}
		}
		return nil
	}
	b := form(step, 2)
	if b == nil {
		return nil
	}
	for i := len(xs) - 1; i >= 0; i-- {
		b = mkLam(xs[i], b)
	}
	return b
}

func mkMulP2(a, e *Node) *Node { return Mul(a, P2(e)) }

// log2Of returns e with n = 2^e
func log2Of(n *Node) *Node {
	ts := termsOf(n)
	if len(ts) != 1 {
		return nil
	}
	e := IntC(0)
	for _, f := range ts[0].M {
		if f.A.kind != KP2 {
			return nil
		}
		e = Add(e, Scale(big.NewRat(int64(f.E), 1), f.A.args[0]))
	}
	c := ts[0].C
	if c.Sign() <= 0 {
		return nil
	}
	num, den := c.Num(), c.Denom()
	one := big.NewInt(1)
	for _, x := range []*big.Int{num, den} {
		if new(big.Int).And(x, new(big.Int).Sub(x, one)).Sign() != 0 {
			return nil
		}
	}
	return Add(e, IntC(int64(num.BitLen()-den.BitLen())))
}

// tripCount is the first k at which the condition fails
func (lc *loopCtx) tripCount(c, k *Node) *Node {
	switch c.kind {
	case KFalse:
		return IntC(0)
	case KTrue:
		lc.in.fail("endless loop")
	}
	// a condition that includes the one it is made of
	if d := indicatorIn(c); d != nil && contains(d, k) {
		for _, e := range []*Node{d, Not(d)} {
			var with, without, above *Node
			implied := false
			withFacts([]*Node{Not(e)}, func() { without = Rebuild(c) })
			if without != NFalse {
				continue
			}
			withFacts([]*Node{e}, func() {
				with = Rebuild(c)
				if with.kind == KNot && with.args[0].kind == KEq0 && with.args[0].args[0].sort == SInt {
					p := with.args[0].args[0]
					if nonneg(p) {
						above = p
					} else if nonneg(Neg(p)) {
						above = Neg(p)
					}
				}
			})
			if above != nil {
				with = Le(IntC(1), above)
			}
			withFacts([]*Node{with}, func() { implied = Rebuild(e) == NTrue })
			if implied {
				c = with
				break
			}
		}
	}
	neg := false
	if c.kind == KNot {
		neg = true
		c = c.args[0]
	}
	switch c.kind {
	case KGe0:
		p := c.args[0]
		if neg {
			p = Sub(IntC(-1), p)
		}
		if n := linearTrip(p, k); n != nil {
			return n
		}
		// a div 2^k >= c
		if a, m, ok := divPow(p, k); ok {
			if m == 1 {
				return Add(log2floor(a), IntC(1))
			}
			if m == 2 {
				return log2floor(a)
			}
		}
		// a power of 2 below a or up to a
		if n := powTrip(p, k); n != nil {
			return n
		}
	case KEq0:
		if !neg {
			if c.args[0] == k || c.args[0] == Neg(k) {
				return IntC(1)
			}
			break
		}
		p := c.args[0]
		if cf, rest, ok := linearAtom(p, k); ok && cf.Num().CmpAbs(cf.Denom()) == 0 {
			n := rest
			if cf.Sign() > 0 {
				n = Neg(rest)
			}
			if nonneg(n) {
				return n
			}
		}
		if p.kind == KDiv && p.args[1] == P2(k) {
			return Add(log2floor(p.args[0]), IntC(1))
		}
	}
	return newSym("trip", SInt, &SymInfo{lo: IntC(0), nat: true})
}

func linearTrip(p, k *Node) *Node {
	cf, rest, ok := coefPoly(p, k)
	if !ok || contains(cf, k) || contains(rest, k) {
		return nil
	}
	if c, ok := constOf(cf); ok {
		if c.Sign() >= 0 {
			return nil
		}
		if c.Cmp(ratNeg) == 0 {
			return Add(rest, IntC(1))
		}
	}
	s := Neg(cf)
	if !nonneg(Sub(s, IntC(1))) {
		// the step is a positive number, or the loop does not end
		var n *Node
		withFacts([]*Node{Le(IntC(1), s)}, func() { n = Add(mkDiv(rest, s), IntC(1)) })
		return n
	}
	return Add(mkDiv(rest, s), IntC(1))
}

// powTrip is the first k at which a < c 2^k, for p = a - c 2^k and c a power of 2
func powTrip(p, k *Node) *Node {
	cf, rest, ok := linearAtom(p, P2(k))
	if !ok || cf.Sign() >= 0 || contains(rest, k) {
		return nil
	}
	c := log2Of(Const(SInt, new(big.Rat).Neg(cf)))
	e, isC := constOf(c)
	if c == nil || !isC || e.Sign() < 0 {
		return nil
	}
	// the first k with rest < 2^(e+k), that is a <= 2^(e+k)
	if a := Add(rest, IntC(1)); len(termsOf(a)) < len(termsOf(rest)) {
		f := log2floor(a)
		return Ite(Lt(P2(c), a), Sub(Add(f, Ite(mkEq(a, P2(f)), IntC(0), IntC(1))), c), IntC(0))
	}
	return Ite(Le(P2(c), rest), Sub(Add(log2floor(rest), IntC(1)), c), IntC(0))
}

// divPow recognises a div 2^k - m
func divPow(p, k *Node) (*Node, int64, bool) {
	for _, t := range termsOf(p) {
		if len(t.M) == 1 && t.M[0].E == 1 && t.M[0].A.kind == KDiv && t.C.Cmp(ratOne) == 0 && t.M[0].A.args[1] == P2(k) {
			rest := Sub(p, t.M[0].A)
			if c, ok := constOf(rest); ok && c.IsInt() {
				return t.M[0].A.args[0], -c.Num().Int64(), true
			}
		}
	}
	return nil, 0, false
}

func log2floor(a *Node) *Node {
	if e := log2Of(a); e != nil {
		return e
	}
	return rebuildApp(&Node{kind: KApp, sort: SInt, name: "log2floor"}, []*Node{a})
}

func init() {
	appRules["log2floor"] = func(a []*Node) *Node {
		if e := log2Of(a[0]); e != nil {
			return e
		}
		return nil
	}
	appRules["asField"] = func(a []*Node) *Node {
		if r := (*Interp)(nil).fieldOf(a[0]); r.kind != KApp || r.name != "asField" {
			return r
		}
		return nil
	}
}

type loopHint struct{ mod, units map[string]bool }

func (in *Interp) setLoopHint(key string, mod, units map[string]bool) {
	if in.loopHints == nil {
		in.loopHints = map[string]*loopHint{}
	}
	in.loopHints[key] = &loopHint{mod, units}
}

// finish solves the recurrences and builds the state after the loop
func (lc *loopCtx) finish(st *State, r *passResult, n *Node, closed map[string]*Node, t *Node, ev0 int) Out {
	in := lc.in
	k := r.k
	t2 := newSym("t", SInt, &SymInfo{lo: IntC(0), hi: Add(n, IntC(1)), nat: true, loop: true})
	toK := map[*Node]*Node{t2: k}
	toN := map[*Node]*Node{t2: n}
	var out Out
	if len(r.brks) > 0 && (r.end == nil || len(r.rets) > 0) {
		in.fail("loop left in several ways")
	}
	if r.end == nil {
		// the first iteration always leaves
		sub := map[*Node]*Node{k: IntC(0)}
		for _, x := range r.rets {
			_ = x
			out.rets = append(out.rets, Ret{NTrue, lc.leftState(st, r, x, k, n), lc.leftVals(x, k, sub, nil)})
			break
		}
		// the loop may not be entered
		c := Le(IntC(1), n)
		if c == NTrue {
			return out
		}
		return joinOuts(c, out, Out{st: st})
	}
	recs := lc.recs(st, r)
	for _, x := range recs {
		if c := closed[x.key]; c != nil {
			x.cl = Subst(c, map[*Node]*Node{t: t2})
		}
	}
	withinLengths(recs, k, t2)
	in.solve(recs, k, t2, n)
	for _, x := range recs {
		if x.bad && !strings.HasPrefix(x.key, "unit:") {
			id := objOfCell(x.key)
			if o := in.objs[id]; o != nil && followed(o.elem) {
				lc.redo = append(lc.redo, id)
			}
		}
	}
	if len(lc.redo) > 0 {
		return Out{}
	}
	sub := map[*Node]*Node{}
	for _, x := range recs {
		sub[x.phi] = Subst(x.cl, toK)
	}
	fix := func(x *Node) *Node { return Subst(x, sub) }
	// events
	if len(sub) > 0 {
		for i := ev0; i < len(in.events); i++ {
			e := &in.events[i]
			if e.node != nil {
				e.node = fix(e.node)
			}
			if e.arg != nil {
				e.arg = fix(e.arg)
			}
			for j, x := range e.extra {
				e.extra[j] = fix(x)
			}
			for j, x := range e.tokens {
				e.tokens[j].count, e.tokens[j].size = fix(x.count), fix(x.size)
			}
			e.cond = fix(e.cond)
		}
	}
	in.recheckBounds(ev0)
	res := st.clone()
	vals := map[string]*Node{}
	for _, x := range recs {
		vals[x.key] = Subst(x.cl, toN)
		if !strings.HasPrefix(x.key, "unit:") {
			res.cells[x.key] = vals[x.key]
		}
	}
	a := fix(r.end.cells[assertCell])
	p := fix(r.end.cells[panicCell])
	res.cells[assertCell] = And(st.cells[assertCell], mkForAll(k, a))
	res.cells[panicCell] = Or(st.cells[panicCell], mkExists(k, p))
	// variables followed by content
	for _, u := range r.units {
		id := u.obj.id
		old := in.unitDeep(st, u.obj)
		known := map[string]*Node{}
		for _, d := range old {
			v := vals["unit:"+id+"|"+d.path]
			if v == nil {
				v = d.n
			}
			known[d.path] = v
		}
		phiID, finalID := "phi:"+lc.key+":"+id, "final:"+lc.key+":"+id
		for _, x := range []string{phiID, finalID} {
			in.noteAliases(st, u.obj, x, nil)
			in.noteAliases(r.end, u.obj, x, r.k)
		}
		in.setUnit(res, u.obj, "final:"+lc.key+":"+id, func(path string, srt Sort, idx []*Node) *Node {
			x := known[path]
			if x == nil {
				x = newSym("unknown", srt, nil)
				return x
			}
			if x.sort != SArr && len(idx) > 0 {
				return x
			}
			return ApplyAll(x, idx...)
		})
		// writes through the followed content also reach the object the variable referred to first
		for c, x := range r.end.cells {
			if strings.HasPrefix(c, phiID) && r.start.cells[c] != nil && r.start.cells[c] != x {
				for _, l := range leaves(u.obj.elem) {
					if l.sort == SRef {
						lc.poisonTargets(res, st.cells[u.obj.id+"|"+l.path])
					}
				}
			}
		}
	}
	// objects created by the iterations
	lc.lift(st, r, res, recs, fix)
	for _, x := range r.rets {
		g := fix(x.g)
		out.rets = append(out.rets, Ret{mkExists(k, g), lc.leftState(st, r, x, k, n), lc.leftVals(x, k, nil, fix)})
	}
	// which return comes first is not known
	for i := 1; i < len(out.rets); i++ {
		for j, v := range out.rets[i].vals {
			for m, l := range v.l {
				if w := out.rets[0].vals[j].l; w[m] != l {
					x := poisonLike(l)
					for _, y := range out.rets {
						y.vals[j].l[m] = x
					}
				}
			}
		}
	}
	out.st = res
	if len(r.brks) > 0 {
		var gs []*Node
		var left *State
		for _, b := range r.brks {
			gs = append(gs, fix(b.g))
			s := lc.brokenState(st, r, b, k, fix)
			if left == nil {
				left = s
				continue
			}
			for c, x := range left.cells {
				if y := s.cells[c]; y != x {
					left.cells[c] = poisonLike(x)
				}
			}
		}
		if p != NFalse {
			left.cells[panicCell] = newSym("unknown", SBool, nil)
		}
		if a != NTrue {
			left.cells[assertCell] = newSym("unknown", SBool, nil)
		}
		out.st = mergeStates(mkExists(k, Or(gs...)), left, res)
	}
	return out
}

// ownBreaks requires the breaks to leave this loop
func (lc *loopCtx) ownBreaks(l []Jump) {
	for _, b := range l {
		if b.label != "" && b.label != lc.label {
			lc.in.fail("break out of an outer loop")
		}
	}
}

// brokenState is the state when the loop is left by a break: of what the loop changes, only the values that do not depend
// on the iteration are known
func (lc *loopCtx) brokenState(st *State, r *passResult, b Jump, k *Node, fix func(*Node) *Node) *State {
	s := lc.leftState(st, r, Ret{b.g, b.st, nil}, k, nil)
	for c, x := range b.st.cells {
		old, known := s.cells[c]
		if !known || isSpecial(c) || r.start.cells[c] == x && !lc.mod[c] {
			continue
		}
		x = fix(x)
		if _, ok := constOf(x); (ok || x == NTrue || x == NFalse) && x.sort == old.sort {
			s.cells[c] = x
		} else {
			s.cells[c] = poisonLike(old)
		}
	}
	return s
}

// unitIdx are the indices of the positions of an object that is followed by content
func unitIdx(o *Object) []*Node {
	n := o.lifted
	if o.backing {
		n++
	}
	var xs []*Node
	for i := 0; i < n; i++ {
		xs = append(xs, openIdx())
	}
	return xs
}

// unitDeep is the content of an object followed by content
func (in *Interp) unitDeep(st *State, o *Object) []Deep {
	in.quiet++
	defer func() { in.quiet-- }()
	xs := unitIdx(o)
	a := Addr(o.id+"|", append(append([]*Node{}, o.args[:len(o.args)-o.lifted]...), xs...)...)
	l := in.deep(st, in.load(st, a, o.elem))
	for i := range l {
		for j := len(xs) - 1; j >= 0; j-- {
			l[i].n = mkLam(xs[j], l[i].n)
		}
	}
	return l
}

// setUnit gives an object a content built by mk, with new objects behind its references
func (in *Interp) setUnit(st *State, o *Object, id string, mk func(string, Sort, []*Node) *Node) {
	xs := unitIdx(o)
	v := in.symVal(st, o.elem, id, "", xs, mk, "")
	for i, l := range leaves(o.elem) {
		n := v.l[i]
		for j := len(xs) - 1; j >= 0; j-- {
			n = mkLam(xs[j], n)
		}
		st.cells[o.id+"|"+l.path] = n
	}
}

// noteAliases records which objects stand behind the references of an object that is followed by content, under the
// names given to these by setUnit; k is a variable out of scope
func (in *Interp) noteAliases(st *State, o *Object, id string, k *Node) {
	in.quiet++
	defer func() { in.quiet-- }()
	m := map[*Node]*Node{}
	if k != nil {
		m[k] = newSym("any", SInt, &SymInfo{nat: true})
	}
	xs := unitIdx(o)
	a := Addr(o.id+"|", append(append([]*Node{}, o.args[:len(o.args)-o.lifted]...), xs...)...)
	in.refsOf(st, in.load(st, a, o.elem), "", xs, func(path string, idx []*Node, ref *Node) {
		ref = Subst(ref, m)
		for j := len(idx) - 1; j >= 0; j-- {
			ref = mkLam(idx[j], ref)
		}
		for _, x := range in.aliases[id+path] {
			if x == ref {
				return
			}
		}
		in.aliases[id+path] = append(in.aliases[id+path], ref)
	})
}

// refsOf enumerates the references in a value, in the way symVal does
func (in *Interp) refsOf(st *State, v Val, path string, idx []*Node, f func(path string, idx []*Node, ref *Node)) {
	if isFieldType(v.t) || isOpaqueStruct(v.t) {
		return
	}
	deeper := func(a *Node, elem types.Type, path string, idx []*Node) {
		mapRefSafe(a, func(b *Node) {
			if b.kind == KAddr {
				in.refsOf(st, in.load(st, b, elem), path, idx, f)
			}
		})
	}
	switch u := v.t.Underlying().(type) {
	case *types.Slice:
		f(path+"[]", idx, v.l[0])
		if hasRefs(u.Elem()) {
			x := openIdx()
			mapRefSafe(v.l[0], func(b *Node) {
				if b.kind == KAddr {
					deeper(addrIndex(b, Add(v.l[1], x), false), u.Elem(), path+"[]", append(append([]*Node{}, idx...), x))
				}
			})
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			in.refsOf(st, v.field(i), path+"."+u.Field(i).Name(), idx, f)
		}
	case *types.Array:
		if hasRefs(u.Elem()) {
			x := openIdx()
			e := Val{t: u.Elem()}
			for _, n := range v.l {
				e.l = append(e.l, Apply(n, x))
			}
			in.refsOf(st, e, path+"[]", append(append([]*Node{}, idx...), x), f)
		}
	case *types.Pointer:
		if isOpaqueStruct(u.Elem()) {
			return
		}
		f(path+"*", idx, v.l[0])
		if hasRefs(u.Elem()) {
			deeper(v.l[0], u.Elem(), path+"*", idx)
		}
	}
}

func hasRefs(t types.Type) bool {
	for _, l := range leaves(t) {
		if l.sort == SRef {
			return true
		}
	}
	return false
}

func (lc *loopCtx) poisonTargets(st *State, ref *Node) {
	if ref == nil {
		return
	}
	walkSeen(ref, map[*Node]bool{}, func(a *Node) {
		if a.kind != KAddr {
			return
		}
		id, _ := splitAddr(a)
		for c, x := range st.cells {
			if objOfCell(c) == id {
				st.cells[c] = poisonLike(x)
			}
		}
	})
}

func mapRefSafe(ref *Node, f func(*Node)) {
	if ref.kind == KIte {
		mapRefSafe(ref.args[1], f)
		mapRefSafe(ref.args[2], f)
		return
	}
	f(ref)
}

func poisonLike(x *Node) *Node {
	if x.sort == SArr {
		return newArrSym("unknown", x.sig)
	}
	return newSym("unknown", x.sort, nil)
}

// leftState is the state when the loop is left by a return
func (lc *loopCtx) leftState(st *State, r *passResult, x Ret, k, n *Node) *State {
	s := st.clone()
	for c := range lc.mod {
		if !isSpecial(c) && s.cells[c] != nil {
			s.cells[c] = poisonLike(s.cells[c])
		}
	}
	for id := range lc.units {
		for _, l := range leaves(lc.in.objs[id].elem) {
			c := id + "|" + l.path
			if s.cells[c] != nil {
				s.cells[c] = poisonLike(s.cells[c])
			}
		}
	}
	p := x.st.cells[panicCell]
	if p == NTrue {
		s.cells[panicCell] = NTrue
	} else if p != NFalse {
		s.cells[panicCell] = newSym("unknown", SBool, nil)
	}
	if x.st.cells[assertCell] != NTrue {
		s.cells[assertCell] = newSym("unknown", SBool, nil)
	}
	return s
}

func (lc *loopCtx) leftVals(x Ret, k *Node, sub map[*Node]*Node, fix func(*Node) *Node) []Val {
	var out []Val
	for _, v := range x.vals {
		w := Val{t: v.t}
		for _, l := range v.l {
			if fix != nil {
				l = fix(l)
			}
			if sub != nil {
				l = Subst(l, sub)
			}
			if contains(l, k) {
				l = poisonLike(l)
			}
			w.l = append(w.l, l)
		}
		out = append(out, w)
	}
	return out
}

// lift keeps the objects created in the loop that are still reachable: their content becomes
// a function of the iteration
func (lc *loopCtx) lift(st *State, r *passResult, res *State, recs []*rec, fix func(*Node) *Node) {
	in := lc.in
	depth := len(in.loops)
	reach := map[string]bool{}
	var queue []*Node
	for _, x := range recs {
		queue = append(queue, res.cells[x.key], x.cl)
	}
	for c, v := range res.cells {
		if st.cells[c] != v {
			queue = append(queue, v)
		}
	}
	seen := map[*Node]bool{}
	byObj := map[string][]string{}
	for c := range r.end.cells {
		if !isSpecial(c) {
			byObj[objOfCell(c)] = append(byObj[objOfCell(c)], c)
		}
	}
	inner := func(o *Object) bool {
		return o != nil && len(o.args)-o.lifted > depth && o.args[depth] == r.k
	}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if n == nil {
			continue
		}
		walkSeen(n, seen, func(x *Node) {
			if x.kind != KAddr {
				return
			}
			id, _ := splitAddr(x)
			if reach[id] {
				return
			}
			reach[id] = true
			if inner(in.objs[id]) {
				for _, c := range byObj[id] {
					queue = append(queue, r.end.cells[c])
				}
			}
		})
	}
	for _, id := range sortedBools(reach) {
		o := in.objs[id]
		if !inner(o) {
			continue
		}
		for _, c := range byObj[id] {
			res.cells[c] = mkLam(r.k, fix(r.end.cells[c]))
		}
		o.lifted++
		if o.size != nil {
			o.size = nil
		}
	}
}

func walkSeen(n *Node, seen map[*Node]bool, f func(*Node)) {
	if n == nil || seen[n] {
		return
	}
	seen[n] = true
	f(n)
	for _, a := range n.args {
		walkSeen(a, seen, f)
	}
	for _, t := range n.terms {
		for _, x := range t.M {
			walkSeen(x.A, seen, f)
		}
	}
}

// ---------------------------------------------------------------------------
// Solving recurrences

func (in *Interp) solve(recs []*rec, k, t, n *Node) {
	toK := map[*Node]*Node{t: k}
	pending := func(x *rec) []*rec {
		var l []*rec
		for _, y := range recs {
			if y.cl == nil && contains(x.step, y.phi) {
				l = append(l, y)
			}
		}
		return l
	}
	substAll := func(done *rec) {
		m := map[*Node]*Node{done.phi: Subst(done.cl, toK)}
		for _, y := range recs {
			if y.cl == nil {
				y.step = Subst(y.step, m)
			}
		}
	}
	for _, x := range recs {
		if x.cl != nil {
			substAll(x)
		}
	}
	for _, x := range recs {
		if x.cl == nil {
			x.step = atStart(x.step, recs, k)
		}
	}
	for {
		progress := false
		for _, x := range recs {
			if x.cl != nil {
				continue
			}
			p := pending(x)
			if len(p) == 0 || (len(p) == 1 && p[0] == x) {
				if cl := in.solveOne(x, k, t, n); cl != nil {
					x.cl = cl
					substAll(x)
					progress = true
				}
			}
		}
		if progress {
			continue
		}
		// arrays written and read by the same iterations only
		for _, x := range recs {
			if x.cl == nil {
				if cl := in.solveDelta(x, recs, k, t, n); cl != nil {
					x.cl = cl
					substAll(x)
					progress = true
					break
				}
			}
		}
		if progress {
			continue
		}
		// arrays every row of which is computed from the previous one
		if in.solveRows(recs, k, t, n) {
			for _, x := range recs {
				if x.cl != nil {
					substAll(x)
				}
			}
			continue
		}
		// values that do not change
		for _, x := range recs {
			if x.cl == nil && x.phi.sort != SRef && contains(x.step, x.phi) {
				if Subst(x.step, map[*Node]*Node{x.phi: x.init}) == x.init {
					x.cl = x.init
					substAll(x)
					progress = true
					break
				}
			}
		}
		if progress {
			continue
		}
		for _, x := range recs {
			if p := pending(x); x.cl == nil && len(p) == 1 && p[0] == x {
				if s := runningMax(x, k); s != nil {
					x.step = s
					if c, ok := constOf(x.init); ok && c.Sign() != 0 {
						// as from 0
						it := &Iter{k: k, n: t, phi: []*Node{x.phi}, init: []*Node{IntC(0)}}
						it.step = []*Node{Sub(Subst(s, map[*Node]*Node{x.phi: Add(x.phi, x.init)}), x.init)}
						x.cl = Add(it.close(), x.init)
						substAll(x)
						progress = true
					}
				}
			}
		}
		// what only some of the first, or of the last iterations modify
		for _, x := range recs {
			if p := pending(x); x.cl == nil && len(p) == 1 && p[0] == x {
				if cl := in.solvePart(x, k, t, n); cl != nil {
					x.cl = cl
					substAll(x)
					progress = true
					break
				}
			}
		}
		if progress {
			continue
		}
		// no closed form: a recurrence term
		var x *rec
		best := 0
		var closure []*rec
		for _, y := range recs {
			if y.cl != nil {
				continue
			}
			c := closureOf(y, recs)
			if x == nil || len(c) < best {
				x, best, closure = y, len(c), c
			}
		}
		if x == nil {
			return
		}
		for _, y := range closure {
			it := &Iter{k: k, n: t}
			for i, z := range closure {
				it.phi = append(it.phi, z.phi)
				it.init = append(it.init, z.init)
				it.step = append(it.step, z.step)
				if z == y {
					it.sel = i
				}
			}
			bad := y.phi.sort == SRef || (y.phi.sort == SArr && y.phi.sig.Elem == SRef)
			if bad && !symbolic(y) {
				y.bad = true
				y.cl = poisonLike(y.init)
				continue
			}
			y.cl = it.close()
		}
		for _, y := range closure {
			substAll(y)
		}
	}
}

// solvePart gives the value at the start of iteration t of what is left alone from some iteration on, or up to it
func (in *Interp) solvePart(x *rec, k, t, n *Node) *Node {
	if x.phi.sort == SRef || x.phi.sort == SArr && x.phi.sig.Elem == SRef {
		return nil
	}
	dims := 0
	if x.phi.sort == SArr {
		dims = x.phi.sig.Dims
	}
	var xs []*Node
	for i := 0; i < dims; i++ {
		xs = append(xs, openIdx())
	}
	within := func(b *Node) *Node {
		for i := len(xs) - 1; i >= 0; i-- {
			b = mkLam(xs[i], b)
		}
		return b
	}
	self, step := ApplyAll(x.phi, xs...), countsAsBounds(ApplyAll(x.step, xs...))
	var atoms []*Node
	walkNodes(step, func(a *Node) bool {
		if a.kind == KGe0 && contains(a, k) && !contains(a, x.phi) && len(atoms) < 6 {
			c, rest, ok := linearAtom(a.args[0], k)
			ok = ok && c.IsInt() && c.Num().IsInt64() && (c.Num().Int64() == 1 || c.Num().Int64() == -1)
			walkNodes(rest0(rest, ok), func(b *Node) bool {
				ok = ok && b.kind != KBVar
				for _, y := range xs {
					ok = ok && b != y
				}
				return ok
			})
			for _, b := range atoms {
				ok = ok && a != b
			}
			if ok {
				atoms = append(atoms, a)
			}
		}
		return true
	})
	for i := range append(atoms, atoms...) {
		g := atoms[i%len(atoms)]
		a, na := g, Not(g)
		if i >= len(atoms) {
			a, na = na, a
		}
		var s *Node
		same := false
		inside := func(f func()) {
			if x.ln == nil {
				f()
				return
			}
			withFacts([]*Node{Lt(xs[0], Rebuild(x.ln))}, f)
		}
		withFacts([]*Node{na}, func() {
			inside(func() { same = impossible() || Rebuild(step) == self })
		})
		if !same {
			continue
		}
		withFacts([]*Node{a}, func() {
			inside(func() { s = Rebuild(step) })
		})
		if s == step {
			continue
		}
		c, rest, _ := linearAtom(g.args[0], k)
		m := Neg(rest)
		first := c.Sign() < 0 // up to some iteration
		if first {
			m = Add(rest, IntC(1))
		}
		if !nonneg(m) {
			continue
		}
		first = first == (a == g)
		y := &rec{key: x.key, phi: x.phi, init: x.init, step: within(s), ln: x.ln}
		if !first {
			shift := map[*Node]*Node{k: Add(k, m)}
			y.step = Subst(y.step, shift)
			if y.ln != nil {
				y.ln = Subst(y.ln, shift)
			}
		}
		in.solve([]*rec{y}, k, t, n)
		iter := false
		if y.cl != nil {
			walkNodes(y.cl, func(b *Node) bool {
				iter = iter || b.kind == KIter
				return !iter
			})
		}
		if y.cl == nil || y.bad || iter {
			continue
		}
		at := func(t2 *Node) *Node { return ApplyAll(Subst(y.cl, map[*Node]*Node{t: t2}), xs...) }
		if first {
			return within(Ite(Le(t, m), ApplyAll(y.cl, xs...), at(m)))
		}
		return within(Ite(Le(t, m), ApplyAll(x.init, xs...), at(Sub(t, m))))
	}
	return nil
}

// countsAsBounds replaces the number of the j < n below m, or from m on, by its value
func countsAsBounds(e *Node) *Node {
	m := map[*Node]*Node{}
	walkNodes(e, func(s *Node) bool {
		if s.kind != KSum || s.sort != SInt {
			return true
		}
		bs, body := openSum(s)
		if len(bs) != 1 || body.kind != KInd || body.args[0].kind != KGe0 {
			return true
		}
		j := bs[0]
		n := j.info.hi
		c, rest, ok := linearAtom(body.args[0].args[0], j)
		if !ok || n == nil || !nonneg(n) || !c.IsInt() || !c.Num().IsInt64() {
			return true
		}
		switch c.Num().Int64() {
		case 1: // j >= a
			if a := Neg(rest); nonneg(a) {
				m[s] = Ite(Le(a, n), Sub(n, a), IntC(0))
			}
		case -1: // j < a
			if a := Add(rest, IntC(1)); nonneg(a) {
				m[s] = Ite(Le(a, n), a, n)
			}
		}
		return true
	})
	if len(m) == 0 {
		return e
	}
	return Subst(e, m)
}

func rest0(n *Node, ok bool) *Node {
	if !ok {
		return IntC(0)
	}
	return n
}

// delta is what an iteration adds to a position of an array, with the conditions of every monomial
type delta struct {
	xs    []*Node
	terms []Term
	guard []*Node
	inds  [][]*Node
}

// atStart replaces what is only used by the first iteration by its initial value
func atStart(step *Node, recs []*rec, k *Node) *Node {
	if step.kind != KPoly {
		return step
	}
	first := Ind(mkEq0(k), step.sort)
	if first.kind != KInd && first.kind != KPoly {
		return step
	}
	ts := termsOf(step)
	used := false
	acc := newAcc(step.sort)
	for _, t := range ts {
		n := monoNode(step.sort, t.M)
		for _, f := range t.M {
			if f.A.kind == KInd && f.A.args[0].kind == KEq0 && f.A.args[0].args[0] == k {
				m := map[*Node]*Node{}
				for _, y := range recs {
					if y.cl == nil && contains(n, y.phi) {
						m[y.phi] = y.init
					}
				}
				if len(m) > 0 {
					used = true
					n = Subst(n, m)
				}
				break
			}
		}
		acc.addNode(t.C, n)
	}
	if !used {
		return step
	}
	return acc.node()
}

func deltaOf(y *rec) *delta {
	if y.phi.sort != SArr || (y.phi.sig.Elem != SInt && y.phi.sig.Elem != SField) {
		return nil
	}
	d := &delta{}
	self, step := y.phi, y.step
	for i := 0; i < y.phi.sig.Dims; i++ {
		o := openIdx()
		d.xs = append(d.xs, o)
		self = Apply(self, o)
		step = Apply(step, o)
	}
	d.terms = termsOf(Sub(step, self))
	for _, t := range d.terms {
		var l []*Node
		g := Const(self.sort, ratOne)
		for _, f := range t.M {
			if f.A.kind == KInd {
				l = append(l, f.A.args[0])
				g = Mul(g, Ind(f.A.args[0], self.sort))
			}
		}
		d.inds = append(d.inds, l)
		d.guard = append(d.guard, g)
	}
	return d
}

// solveDelta: a(n) = a(0) + the sum of what the iterations add, when what an iteration reads was not
// written by an earlier one
func (in *Interp) solveDelta(x *rec, recs []*rec, k, t, n *Node) *Node {
	dx := deltaOf(x)
	if dx == nil {
		return nil
	}
	type target struct {
		y *rec
		d *delta
	}
	var ts []target
	for _, y := range recs {
		if y.cl != nil || !contains(x.step, y.phi) {
			continue
		}
		d := deltaOf(y)
		if d == nil {
			return nil
		}
		ts = append(ts, target{y, d})
	}
	s := x.phi.sig.Elem
	body := Const(s, ratZero)
	for i, tm := range dx.terms {
		m := Scale(tm.C, monoNode(s, tm.M))
		for pass := 0; ; pass++ {
			var sub map[*Node]*Node
			for _, tg := range ts {
				dims := tg.y.phi.sig.Dims
				reads, ok := idxAtoms(m, tg.y.phi, dims)
				if !ok {
					return nil
				}
				for _, a := range reads {
					ys := idxOf(a, dims)
					nested := false
					for _, r := range ys {
						for _, o := range ts {
							nested = nested || contains(r, o.y.phi)
						}
					}
					if nested {
						continue
					}
					for _, g := range tg.d.guard {
						if contains(g, tg.y.phi) || !notYet(g, tg.d.xs, ys, k, dx.inds[i]) {
							return nil
						}
					}
					if sub == nil {
						sub = map[*Node]*Node{}
					}
					sub[a] = ApplyAll(tg.y.init, ys...)
				}
			}
			if sub == nil {
				break
			}
			m = Subst(m, sub)
			if pass > 4 {
				return nil
			}
		}
		for _, tg := range ts {
			if contains(m, tg.y.phi) {
				return nil
			}
		}
		body = Add(body, m)
	}
	j := loopSym("k", t)
	r := Add(ApplyAll(x.init, dx.xs...), mkSum(j, Subst(body, map[*Node]*Node{k: j})))
	for i := len(dx.xs) - 1; i >= 0; i-- {
		r = mkLam(dx.xs[i], r)
	}
	return r
}

func closureOf(x *rec, recs []*rec) []*rec {
	var l []*rec
	seen := map[*rec]bool{}
	var visit func(y *rec)
	visit = func(y *rec) {
		if seen[y] {
			return
		}
		seen[y] = true
		l = append(l, y)
		for _, z := range recs {
			if z.cl == nil && contains(y.step, z.phi) {
				visit(z)
			}
		}
	}
	visit(x)
	return l
}

// solveOne gives the value at the start of iteration t
func (in *Interp) solveOne(x *rec, k, t, n *Node) *Node {
	if x.step == x.phi {
		return x.init
	}
	dims := 0
	if x.phi.sort == SArr {
		dims = x.phi.sig.Dims
	}
	var xs []*Node
	self, init, step := x.phi, x.init, x.step
	for i := 0; i < dims; i++ {
		y := openIdx()
		xs = append(xs, y)
		self = Apply(self, y)
		init = Apply(init, y)
		step = Apply(step, y)
	}
	closeLam := func(b *Node) *Node {
		for i := len(xs) - 1; i >= 0; i-- {
			b = mkLam(xs[i], b)
		}
		return b
	}
	if !contains(step, x.phi) {
		prev := Subst(step, map[*Node]*Node{k: Sub(t, IntC(1))})
		if Subst(prev, map[*Node]*Node{t: IntC(0)}) == init {
			return closeLam(prev)
		}
		return closeLam(Ite(mkEq0(t), init, prev))
	}
	var b *Node
	switch self.sort {
	case SInt, SField:
		b = solveNum(x, xs, self, init, step, k, t, n)
	case SBool:
		b = solveBool(x, xs, self, init, step, k, t, n)
	case SRef:
		b = solveRef(x, xs, self, init, step, k, t, n)
	}
	if b == nil && len(xs) == 1 && (self.sort == SField || self.sort == SInt) {
		b = solveCarried(x, xs[0], self, init, step, k, t, n)
	}
	if b == nil {
		return nil
	}
	return closeLam(b)
}

// solveCarried: an iteration writes the position p(k) and the one written by the previous iteration, p(k-1); it
// reads only p(k-1) and positions no iteration has reached: what it leaves at p(k) is carried to the next one
func solveCarried(x *rec, y, self, init, step, k, t, n *Node) *Node {
	at := func(e *Node, i *Node) *Node { return Subst(e, map[*Node]*Node{k: i}) }
	tryPos := func(p *Node) *Node {
		q := at(p, Sub(k, IntC(1)))
		if d := Sub(p, q); d != IntC(1) && d != IntC(-1) {
			return nil
		}
		dir := Sub(p, q)
		rest := newAcc(step.sort)
		for _, m := range termsOf(step) {
			drop := false
			for _, f := range m.M {
				if f.A.kind == KInd && f.A.args[0].kind == KEq0 {
					e := f.A.args[0].args[0]
					for _, w := range []*Node{p, q} {
						if e == Sub(y, w) || e == Sub(w, y) {
							drop = true
						}
					}
				}
			}
			if !drop {
				rest.add(m.C, m.M)
			}
		}
		if rest.node() != self {
			return nil
		}
		u := newSym("u", self.sort, nil)
		value := func(w *Node) *Node {
			v := Subst(step, map[*Node]*Node{y: w})
			reads, ok := idxAtoms(v, x.phi, 1)
			if !ok {
				return nil
			}
			m := map[*Node]*Node{}
			for _, a := range reads {
				z := idxOf(a, 1)[0]
				if z == q {
					m[a] = u
					continue
				}
				ahead := Sub(z, p)
				if dir == IntC(-1) {
					ahead = Neg(ahead)
				}
				if !isNonNegConst(ahead) {
					return nil
				}
				m[a] = Apply(x.init, z)
			}
			v = Subst(v, m)
			if contains(v, x.phi) {
				return nil
			}
			return v
		}
		v1, v0 := value(p), value(q)
		if v1 == nil || v0 == nil {
			return nil
		}
		r := &rec{key: "u", phi: u, init: Apply(x.init, at(q, IntC(0))), step: v1}
		(*Interp)(nil).solve([]*rec{r}, k, t, n)
		if r.cl == nil || r.bad {
			return nil
		}
		v0 = Subst(v0, map[*Node]*Node{u: at(Subst(r.cl, map[*Node]*Node{t: k}), k)})
		j := loopSym("k", t)
		res := Add(init, mkSum(j, at(Mul(Ind(mkEq0(Sub(y, q)), self.sort), Sub(v0, init)), j)))
		return Add(res, Mul(Ind(mkEq0(Sub(y, at(q, t))), self.sort), Sub(r.cl, init)))
	}
	seen := map[*Node]bool{}
	for _, m := range termsOf(step) {
		for _, f := range m.M {
			if f.A.kind != KInd || f.A.args[0].kind != KEq0 {
				continue
			}
			e := f.A.args[0].args[0]
			if e.sort != SInt {
				continue
			}
			for _, p := range []*Node{Sub(y, e), Add(y, e)} {
				if seen[p] || contains(p, y) || contains(p, x.phi) {
					continue
				}
				seen[p] = true
				if r := tryPos(p); r != nil {
					return r
				}
			}
		}
	}
	return nil
}

// alignSelf replaces the reads of the array at the position under consideration by me
func alignSelf(step, phi, self *Node, xs []*Node, me *Node) *Node {
	acc := newAcc(step.sort)
	for _, t := range termsOf(step) {
		m := make([]Factor, 0, len(t.M))
		var eqs []*Node
		for _, f := range t.M {
			if f.A.kind == KInd && f.A.args[0].kind == KEq0 {
				eqs = append(eqs, f.A.args[0].args[0])
			}
		}
		var sums *Node
		for _, f := range t.M {
			if f.A == self || (f.A.kind == KIdx && readsSelf(f.A, phi, xs, eqs)) {
				m = append(m, Factor{me, f.E})
				continue
			}
			if f.A.kind == KSum && f.E == 1 && sums == nil && contains(f.A, phi) {
				ks, b := openSum(f.A)
				if b2 := alignSelf(b, phi, self, xs, me); b2 != b {
					sums = sumOver(step.sort, ks, b2)
					continue
				}
			}
			m = append(m, f)
		}
		sort.Slice(m, func(i, j int) bool { return m[i].A.id < m[j].A.id })
		// merge duplicates
		var mm []Factor
		for _, f := range m {
			if len(mm) > 0 && mm[len(mm)-1].A == f.A {
				mm[len(mm)-1].E += f.E
				continue
			}
			mm = append(mm, f)
		}
		if sums != nil {
			acc.addNode(t.C, Mul(monoNode(step.sort, mm), sums))
			continue
		}
		acc.add(t.C, mm)
	}
	return acc.node()
}

func readsSelf(a, phi *Node, xs []*Node, eqs []*Node) bool {
	for i := len(xs) - 1; i >= 0; i-- {
		if a.kind != KIdx {
			return false
		}
		d := Sub(a.args[1], xs[i])
		if !isZero(d) {
			ok := false
			for _, e := range eqs {
				if e == d || e == Neg(d) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		a = a.args[0]
	}
	return a == phi
}

func solveNum(x *rec, xs []*Node, self, init, step, k, t, n *Node) *Node {
	me := newSym("self", self.sort, nil)
	st := step
	if len(xs) > 0 {
		st = alignSelf(step, x.phi, self, xs, me)
	} else {
		st = Subst(step, map[*Node]*Node{self: me})
	}
	a, c, ok := coefPoly(st, me)
	if !ok {
		return nil
	}
	s := self.sort
	one := Const(s, ratOne)
	j := loopSym("k", t)
	at := func(e *Node, i *Node) *Node { return Subst(e, map[*Node]*Node{k: i}) }
	if contains(a, x.phi) {
		return nil
	}
	if !contains(c, x.phi) {
		if isOne(a) {
			return Add(init, mkSum(j, at(c, j)))
		}
		if isZero(c) && s == SField {
			if init == FldC(0) {
				return init
			}
			return Mul(init, mkProd(j, at(a, j)))
		}
		if isZero(c) && s == SInt && !contains(a, k) {
			if e := log2Of(a); e != nil {
				return Mul(init, P2(Mul(e, t)))
			}
		}
	}
	if len(xs) > 0 {
		g := Sub(one, a)
		if r := solveWrites(x, xs, init, g, c, k, t, n); r != nil {
			return r
		}
	}
	if contains(c, x.phi) {
		return nil
	}
	if len(xs) > 0 {
		// an iteration leaves alone the values changed by the earlier ones
		m := Sub(a, one)
		d := Add(Mul(m, init), c)
		var z bool
		i := loopSym("j", k)
		withFacts([]*Node{Le(IntC(1), k)}, func() { z = isZero(Mul(m, at(d, i))) || zeroProduct(m, at(d, i)) })
		if z {
			return Add(init, mkSum(j, at(d, j)))
		}
	}
	if s == SField && !contains(a, k) && len(xs) == 0 {
		// constant factor
		e := Sub(Sub(t, IntC(1)), j)
		return Add(Mul(init, mkPowF(a, t)), mkSum(j, Mul(at(c, j), mkPowF(a, e))))
	}
	return nil
}

// zeroProduct shows that a·b is zero for each choice of the terms of the sums in them
func zeroProduct(a, b *Node) bool {
	if !hasSum(a) && !hasSum(b) {
		return false
	}
	for _, x := range opened(a) {
		for _, y := range opened(b) {
			if !isZero(Mul(x, y)) {
				return false
			}
		}
	}
	return true
}

func hasSum(n *Node) bool {
	for _, t := range termsOf(n) {
		for _, f := range t.M {
			if f.A.kind == KSum {
				return true
			}
		}
	}
	return false
}

// opened lists the terms of n, where sums are replaced by their bodies
func opened(n *Node) []*Node {
	var r []*Node
	for _, t := range termsOf(n) {
		p := Const(n.sort, t.C)
		for _, f := range t.M {
			if f.A.kind == KSum && f.E == 1 {
				_, b := openSum(f.A)
				p = Mul(p, b)
				continue
			}
			p = Mul(p, monoNode(n.sort, []Factor{f}))
		}
		r = append(r, p)
	}
	return r
}

// notYet proves that the positions ys were not written before iteration k; g is the condition (as a
// number) under which position xs is written at iteration k
func notYet(g *Node, xs, ys []*Node, k *Node, ctx []*Node) bool {
	d := openIdx()
	sub := map[*Node]*Node{}
	for i := range xs {
		sub[xs[i]] = ys[i]
	}
	earlier := Sub(Sub(k, IntC(1)), d)
	// g at iteration k-1-d and position ys
	k2 := newSym("k", SInt, &SymInfo{lo: IntC(0), hi: k.info.hi, nat: true, loop: true})
	g2 := Subst(g, map[*Node]*Node{k: k2})
	g2 = Subst(g2, sub)
	g2 = Subst(g2, map[*Node]*Node{k2: earlier})
	var z bool
	withFacts(append([]*Node{Le(IntC(0), earlier)}, ctx...), func() { z = isZero(Rebuild(g2)) })
	return z
}

func disjointWrites(g *Node, k *Node) bool {
	d := openIdx()
	other := Add(Add(k, IntC(1)), d)
	var z bool
	withFacts([]*Node{Lt(other, k.info.hi)}, func() {
		z = isZero(Mul(Rebuild(g), Subst(g, map[*Node]*Node{k: other})))
	})
	return z
}

// idxAtoms lists the reads of array phi in n, with their indices; ok is false when phi is used otherwise
func idxAtoms(n, phi *Node, dims int) (list []*Node, ok bool) {
	ok = true
	seen := map[*Node]bool{}
	var w func(x *Node)
	w = func(x *Node) {
		if x == nil || seen[x] || !contains(x, phi) {
			return
		}
		seen[x] = true
		if x == phi {
			ok = false
			return
		}
		y := x
		d := 0
		for y.kind == KIdx {
			y = y.args[0]
			d++
		}
		if y == phi && d == dims {
			if x.bv != 0 {
				ok = false // under a binder
				return
			}
			list = append(list, x)
			for z := x; z.kind == KIdx; z = z.args[0] {
				w(z.args[1])
			}
			return
		}
		for _, a := range x.args {
			w(a)
		}
		for _, t := range x.terms {
			for _, f := range t.M {
				w(f.A)
			}
		}
	}
	w(n)
	return
}

func idxOf(a *Node, dims int) []*Node {
	ys := make([]*Node, dims)
	for i := dims - 1; i >= 0; i-- {
		ys[i] = a.args[1]
		a = a.args[0]
	}
	return ys
}

// solveWrites handles arrays of which each position is written by at most one iteration
// step = (1-g) self + c
func solveWrites(x *rec, xs []*Node, init, g, c, k, t, n *Node) *Node {
	if contains(g, x.phi) {
		return nil
	}
	s := init.sort
	if Mul(g, g) != g || !disjointWrites(g, k) {
		return nil
	}
	dims := len(xs)
	reads, ok := idxAtoms(c, x.phi, dims)
	if !ok {
		return nil
	}
	me := openIdx()
	_ = me
	sub := map[*Node]*Node{}
	var rest []*Node
	for _, a := range reads {
		ys := idxOf(a, dims)
		if notYet(g, xs, ys, k, nil) {
			sub[a] = ApplyAll(x.init, ys...)
			continue
		}
		rest = append(rest, a)
	}
	if len(sub) > 0 {
		c = Subst(c, sub)
	}
	if len(rest) > 0 {
		return solvePrefix(x, xs, init, g, c, k, t, n, rest)
	}
	j := loopSym("k", t)
	body := Sub(c, Mul(g, init))
	if Mul(g, body) != body {
		return nil
	}
	_ = s
	return Add(init, mkSum(j, Subst(body, map[*Node]*Node{k: j})))
}

// solvePrefix: the value written at iteration k depends on the value written at iteration k-1
func solvePrefix(x *rec, xs []*Node, init, g, c, k, t, n *Node, reads []*Node) *Node {
	if len(xs) == 0 {
		return nil
	}
	// the written position: solve g for xs
	pos := writtenAt(g, xs)
	if pos == nil {
		return nil
	}
	at := func(e *Node, i *Node) *Node { return Subst(e, map[*Node]*Node{k: i}) }
	prev := make([]*Node, len(pos))
	for i := range pos {
		prev[i] = at(pos[i], Sub(k, IntC(1)))
	}
	// written value
	sub := map[*Node]*Node{}
	for i := range xs {
		sub[xs[i]] = pos[i]
	}
	u := newSym("u", x.init.sig.Elem, nil)
	rs := map[*Node]*Node{}
	for _, a := range reads {
		ys := idxOf(a, len(xs))
		for i := range ys {
			if ys[i] != prev[i] {
				return nil
			}
		}
		rs[a] = u
	}
	val := Subst(Subst(c, rs), sub)
	gv := Subst(g, sub)
	if !isOne(gv) {
		// guarded by more than the position
		return nil
	}
	if contains(val, x.phi) {
		return nil
	}
	first := make([]*Node, len(pos))
	for i := range pos {
		first[i] = at(pos[i], IntC(-1))
	}
	r := &rec{key: "u", phi: u, init: ApplyAll(x.init, first...), step: val}
	recs := []*rec{r}
	(*Interp)(nil).solve(recs, k, t, n)
	// u at the start of iteration t is the value written at iteration t-1
	j := loopSym("k", t)
	w := Subst(r.cl, map[*Node]*Node{t: Add(j, IntC(1))})
	body := Mul(at(g, j), Sub(w, init))
	return Add(init, mkSum(j, body))
}

// writtenAt solves the indicator g for the positions
// solveRows handles a group of arrays A, B... of which iteration k writes the row k+c, computed from the rows
// k+c-1 of the group: the rows are the successive values of a recurrence
func (in *Interp) solveRows(recs []*rec, k, t, n *Node) bool {
	for _, x := range recs {
		if x.cl != nil || x.phi.sort != SArr {
			continue
		}
		group := closureOf(x, recs)
		if len(group) < 1 {
			continue
		}
		if in.solveRowGroup(group, k, t, n) {
			return true
		}
	}
	return false
}

func (in *Interp) solveRowGroup(group []*rec, k, t, n *Node) bool {
	for _, y := range group {
		if y.cl != nil || y.phi.sort == SRef || (y.phi.sort == SArr && y.phi.sig.Elem == SRef && !symbolic(y)) {
			return false
		}
	}
	// the row written: k+c or c-k
	x := openIdx()
	var c *Node
	down := false
	for _, y := range group {
		if y.phi.sort != SArr {
			continue
		}
		walkNodes(Apply(y.step, x), func(z *Node) bool {
			if c != nil {
				return false
			}
			if z.kind == KEq0 && z.args[0].sort == SInt && z.bv == 0 && contains(z, x) && contains(z, k) {
				if v, _, ok := solveFor(z.args[0], x); ok {
					if d := Sub(v, k); !contains(d, k) {
						c, down = d, false
					} else if d := Add(v, k); !contains(d, k) {
						c, down = d, true
					}
				}
			}
			return c == nil
		})
	}
	if c == nil {
		return false
	}
	row, prev := Add(k, c), Sub(Add(k, c), IntC(1))
	iter := Sub(x, c) // the iteration that writes x
	if down {
		row, prev = Sub(c, k), Add(Sub(c, k), IntC(1))
		iter = Sub(c, x)
	}
	// which ones are written row by row
	us := map[*rec]*Node{}
	for _, y := range group {
		if y.phi.sort != SArr {
			continue
		}
		full := []*Node{x}
		for d := 1; d < y.phi.sig.Dims; d++ {
			full = append(full, openIdx())
		}
		leaf, self := ApplyAll(y.step, full...), ApplyAll(y.phi, full...)
		same := false
		withFacts([]*Node{Not(mkEq(x, row))}, func() { same = Rebuild(leaf) == self })
		if same {
			if y.phi.sig.Dims == 1 {
				us[y] = newSym("row", y.phi.sig.Elem, nil)
			} else {
				us[y] = newArrSym("row", Sig{y.phi.sig.Dims - 1, y.phi.sig.Elem})
			}
		}
	}
	if len(us) == 0 {
		return false
	}
	// only the previous rows are read
	replace := func(w *Node) *Node {
		m := map[*Node]*Node{}
		for z, u := range us {
			walkNodes(w, func(a *Node) bool {
				if a.kind == KIdx && a.args[0] == z.phi && a.args[1] == prev {
					m[a] = u
				}
				return true
			})
		}
		if len(m) > 0 {
			w = Rebuild(Subst(w, m))
		}
		for z := range us {
			if contains(w, z.phi) {
				return nil
			}
		}
		return w
	}
	var rows []*rec
	of := map[*rec]*rec{}
	for i, y := range group {
		u := us[y]
		r := &rec{key: fmt.Sprint("row", i), phi: y.phi, init: y.init}
		if u == nil {
			r.step = replace(y.step)
		} else {
			r.phi = u
			r.init = Apply(y.init, Subst(prev, map[*Node]*Node{k: IntC(0)}))
			r.step = replace(Apply(y.step, row))
		}
		if r.step == nil {
			return false
		}
		of[y] = r
		rows = append(rows, r)
	}
	in.solve(rows, k, t, n)
	for _, y := range group {
		if us[y] == nil {
			y.cl, y.bad = of[y].cl, of[y].bad
			continue
		}
		var xs []*Node
		for d := 1; d < y.phi.sig.Dims; d++ {
			xs = append(xs, openIdx())
		}
		full := append([]*Node{x}, xs...)
		// the row written at iteration j is the value after j+1 iterations
		v := ApplyAll(Subst(of[y].cl, map[*Node]*Node{t: Add(iter, IntC(1))}), xs...)
		b := Ite(And(Le(IntC(0), iter), Lt(iter, t)), v, ApplyAll(y.init, full...))
		for d := len(full) - 1; d >= 0; d-- {
			b = mkLam(full[d], b)
		}
		y.cl = b
	}
	return true
}

func writtenAt(g *Node, xs []*Node) []*Node {
	ts := termsOf(g)
	if len(ts) != 1 || ts[0].C.Cmp(ratOne) != 0 {
		return nil
	}
	pos := make([]*Node, len(xs))
	for _, f := range ts[0].M {
		if f.A.kind != KInd || f.A.args[0].kind != KEq0 {
			continue
		}
		p := f.A.args[0].args[0]
		for i, x := range xs {
			if c, rest, ok := linearAtom(p, x); ok && pos[i] == nil && c.Num().CmpAbs(c.Denom()) == 0 {
				v := Neg(rest)
				if c.Sign() < 0 {
					v = rest
				}
				if !containsAny(v, xs) {
					pos[i] = v
				}
			}
		}
	}
	for _, p := range pos {
		if p == nil {
			return nil
		}
	}
	return pos
}

// alignBool replaces the reads of the set at the position written by reads of the position under consideration
func alignBool(x *rec, xs []*Node, self, step *Node) *Node {
	if len(xs) != 1 {
		return step
	}
	var eq, key *Node
	walkNodes(step, func(c *Node) bool {
		if eq != nil || c.bv != 0 {
			return eq == nil
		}
		switch {
		case c.kind == KApp && c.name == "==" && (c.args[0] == xs[0] || c.args[1] == xs[0]):
			eq, key = c, c.args[0]
			if key == xs[0] {
				key = c.args[1]
			}
		case c.kind == KEq0 && c.args[0].sort == SInt && contains(c, xs[0]):
			if v, integral, ok := solveFor(c.args[0], xs[0]); ok && integral {
				eq, key = c, v
			}
		}
		return true
	})
	if eq == nil || contains(key, xs[0]) || contains(key, x.phi) {
		return step
	}
	read := Apply(x.phi, key)
	if read == self || !contains(step, read) {
		return step
	}
	a := Subst(step, map[*Node]*Node{eq: NTrue, read: self})
	b := Subst(step, map[*Node]*Node{eq: NFalse})
	if h, l := Subst(b, map[*Node]*Node{read: NTrue}), Subst(b, map[*Node]*Node{read: NFalse}); h == l {
		b = h
	}
	return Or(And(eq, a), And(Not(eq), b))
}

// symbolic tells that references are only arbitrary values, none of which is an address
func symbolic(x *rec) bool {
	ok := true
	for _, n := range []*Node{x.init, x.step} {
		walkNodes(n, func(y *Node) bool {
			if y.kind == KAddr {
				ok = false
			}
			return ok
		})
	}
	return ok
}

func solveBool(x *rec, xs []*Node, self, init, step, k, t, n *Node) *Node {
	at := func(e *Node, i *Node) *Node { return Subst(e, map[*Node]*Node{k: i}) }
	step = alignBool(x, xs, self, step)
	hi := Subst(step, map[*Node]*Node{self: NTrue})
	lo := Subst(step, map[*Node]*Node{self: NFalse})
	if contains(hi, x.phi) || contains(lo, x.phi) {
		return nil
	}
	j := loopSym("k", t)
	switch {
	case lo == NFalse: // self and hi
		return And(init, mkForAll(j, at(hi, j)))
	case hi == NTrue: // self or lo
		return Or(init, mkExists(j, at(lo, j)))
	}
	if len(xs) == 0 {
		return nil
	}
	// written where some equalities hold
	var eqs []*Node
	sub := map[*Node]*Node{}
	walkNodes(step, func(c *Node) bool {
		if c.kind == KEq0 && c.args[0].sort == SInt && c.bv == 0 && sub[c] == nil &&
			Subst(step, map[*Node]*Node{c: NFalse}) == self {
			eqs = append(eqs, c)
			sub[c] = NTrue
		}
		return true
	})
	if len(eqs) > 0 {
		w := Subst(step, sub)
		if contains(w, self) {
			w = Subst(w, map[*Node]*Node{self: init})
		}
		if !contains(w, x.phi) {
			if r := solveByIndex(x, xs, init, And(eqs...), w, k, t); r != nil {
				return r
			}
		}
	}
	// written where hi and lo agree
	g := Or(And(hi, lo), And(Not(hi), Not(lo)))
	return solveByIndex(x, xs, init, g, And(hi, lo), k, t)
}

// solveByIndex: position xs is written at the only iteration satisfying g
func solveByIndex(x *rec, xs []*Node, init, g, w, k, t *Node) *Node {
	gn := Ind(g, SInt)
	if !disjointWrites(gn, k) {
		return nil
	}
	conj := []*Node{g}
	if g.kind == KAnd {
		conj = g.args
	}
	for _, c := range conj {
		if c.kind != KEq0 || c.args[0].sort != SInt {
			continue
		}
		cf, rest, ok := linearAtom(c.args[0], k)
		if !ok || cf.Num().CmpAbs(cf.Denom()) != 0 {
			continue
		}
		v := Neg(rest)
		if cf.Sign() < 0 {
			v = rest
		}
		m := map[*Node]*Node{k: v}
		cond := And(Subst(g, m), Le(IntC(0), v), Lt(v, t))
		return Ite(cond, Subst(w, m), init)
	}
	return nil
}

func solveRef(x *rec, xs []*Node, self, init, step, k, t, n *Node) *Node {
	if len(xs) == 0 {
		return nil
	}
	g, w := iteWrites(step, self)
	if g == nil || contains(g, x.phi) {
		return nil
	}
	if contains(w, x.phi) {
		reads, ok := idxAtoms(w, x.phi, len(xs))
		if !ok {
			return nil
		}
		sub := map[*Node]*Node{}
		for _, a := range reads {
			ys := idxOf(a, len(xs))
			if !notYet(Ind(g, SInt), xs, ys, k, nil) {
				return nil
			}
			sub[a] = ApplyAll(x.init, ys...)
		}
		w = Subst(w, sub)
	}
	return solveByIndex(x, xs, init, g, w, k, t)
}

// iteWrites splits a tree of alternatives into the condition under which self is replaced, and the value
func iteWrites(n, self *Node) (*Node, *Node) {
	if n == self {
		return NFalse, App("undef", n.sort)
	}
	if n.kind == KIte {
		c := n.args[0]
		ga, wa := iteWrites(n.args[1], self)
		gb, wb := iteWrites(n.args[2], self)
		return Or(And(c, ga), And(Not(c), gb)), Ite(c, wa, wb)
	}
	return NTrue, n
}

func isNonNegConst(n *Node) bool {
	c, ok := constOf(n)
	return ok && c.Sign() >= 0
}
