package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// Event is something observable that happened during the analysis
type Event struct {
	kind   string
	obj    string
	node   *Node
	arg    *Node
	cond   *Node
	loops  []*Node
	gos    []*GoRoutine
	pos    token.Pos
	fn     string
	seq    int
	gor    *GoRoutine // the one started
	extra  []*Node    // addresses in a message
	tokens []tokens   // the permits available
}

// tokens is the number of permits available of a semaphore
type tokens struct {
	name        string
	count, size *Node
}

type GoRoutine struct {
	id    int
	pos   token.Pos
	loops []*Node
	fn    string
}

func (in *Interp) event(kind string, obj string, node, arg *Node) {
	if in.quiet > 0 {
		return
	}
	in.events = append(in.events, Event{kind: kind, obj: obj, node: node, arg: arg, cond: in.pathCond(),
		loops: append([]*Node{}, in.loops...), gos: append([]*GoRoutine{}, in.goCtx...), pos: in.curPos, fn: in.fnName(), seq: len(in.events)})
}

// bound records that an index must be in range
func (in *Interp) bound(c *Node) {
	if !in.bounds || in.quiet > 0 {
		return
	}
	if in.frame.pkg != nil && strings.HasPrefix(in.frame.pkg.path, "verifspec") {
		return
	}
	in.nBounds++
	if c == NTrue || provable(c, 4) {
		return
	}
	in.event("bound", "", c, nil)
}

// recheckBounds drops the bounds that hold
func (in *Interp) recheckBounds(from int) {
	if !in.bounds {
		return
	}
	l := in.events[:from:from]
	for _, e := range in.events[from:] {
		if e.kind == "bound" {
			ok := false
			var fs []*Node
			fs = append(fs, e.cond)
			for _, k := range e.loops {
				if k.info != nil && k.info.hi != nil {
					fs = append(fs, Lt(k, k.info.hi))
				}
			}
			withFacts(fs, func() { ok = facts.absurd || inRange(Rebuild(e.node)) })
			if ok {
				continue
			}
		}
		l = append(l, e)
	}
	in.events = l
}

func (in *Interp) fnName() string {
	if in.frame == nil {
		return ""
	}
	return in.frame.fn
}

func (in *Interp) access(a *Node, path string, write bool) {
	if in.quiet > 0 {
		return
	}
	k := "read"
	if write {
		k = "write"
	}
	if a.kind != KAddr {
		if !noMemory(a) {
			in.event(k, "?", a, nil)
		}
		return
	}
	in.event(k, a.name+path, a, nil)
}

// ---------------------------------------------------------------------------
// Calls

func (in *Interp) receiver(st *State, e *ast.SelectorExpr, f *types.Func) Val {
	info := in.frame.pkg.info
	sel := info.Selections[e]
	t := in.typeOf(e.X)
	sig := f.Type().(*types.Signature)
	wantPtr := isPtr(sig.Recv().Type())
	// walk embedded fields
	idx := sel.Index()
	if len(idx) > 1 {
		in.fail("promoted method %s", f.Name())
	}
	if isInterface(t) {
		return in.eval(st, e.X)
	}
	if wantPtr {
		if isPtr(t) {
			return in.eval(st, e.X)
		}
		return scalar(sig.Recv().Type(), in.addrOf(st, e.X))
	}
	v := in.eval(st, e.X)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return in.load(st, v.node(), p.Elem())
	}
	return v
}

func (in *Interp) args(st *State, call *ast.CallExpr, sig *types.Signature) []Val {
	var vals []Val
	if len(call.Args) == 1 && sig.Params().Len() > 1 {
		if _, ok := ast.Unparen(call.Args[0]).(*ast.CallExpr); ok {
			vals = in.evalMulti(st, call.Args[0])
		}
	}
	if vals == nil {
		for _, a := range call.Args {
			vals = append(vals, in.eval(st, a))
		}
	}
	n := sig.Params().Len()
	if !sig.Variadic() {
		for i := range vals {
			vals[i] = in.convert(st, vals[i], sig.Params().At(i).Type())
		}
		return vals
	}
	for i := 0; i < n-1; i++ {
		vals[i] = in.convert(st, vals[i], sig.Params().At(i).Type())
	}
	st2 := sig.Params().At(n - 1).Type()
	if call.Ellipsis.IsValid() {
		return vals
	}
	elem := st2.(*types.Slice).Elem()
	rest := vals[n-1:]
	out := append([]Val{}, vals[:n-1]...)
	if len(rest) == 0 {
		return append(out, zeroVal(st2))
	}
	o := in.fixedObject(in.objID("variadic", call.Pos()), "variadic", elem, true)
	o.size = IntC(int64(len(rest)))
	x := openIdx()
	ls := leaves(elem)
	body := append([]*Node{}, zeroVal(elem).l...)
	for j, v := range rest {
		v = in.convert(st, v, elem)
		for i := range ls {
			body[i] = Ite(mkEq(x, IntC(int64(j))), v.l[i], body[i])
		}
	}
	for i, l := range ls {
		st.cells[o.id+"|"+l.path] = mkLam(x, body[i])
	}
	return append(out, sliceVal(st2, o.addr(), IntC(0), o.size, o.size))
}

func (in *Interp) evalMulti(st *State, e ast.Expr) []Val {
	e = ast.Unparen(e)
	info := in.frame.pkg.info
	oldPos := in.curPos
	in.curPos = e.Pos()
	defer func() { in.curPos = oldPos }()
	call, ok := e.(*ast.CallExpr)
	if !ok {
		// comma-ok forms
		switch x := e.(type) {
		case *ast.IndexExpr:
			mt := in.typeOf(x.X).Underlying().(*types.Map)
			m := in.eval(st, x.X).node()
			k := in.convert(st, in.eval(st, x.Index), mt.Key())
			v, has := in.mapGet(st, m, k.node(), mt.Elem())
			return []Val{v, scalar(types.Typ[types.Bool], has)}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				v, ok := in.chanRecv(st, in.eval(st, x.X))
				return []Val{v, scalar(types.Typ[types.Bool], ok)}
			}
		}
		return []Val{in.eval(st, e)}
	}
	fun := ast.Unparen(call.Fun)
	// conversions
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		v := in.eval(st, call.Args[0])
		if len(v.l) == 1 && !isInterface(tv.Type) {
			return []Val{{tv.Type, v.l}}
		}
		return []Val{in.convert(st, v, tv.Type)}
	}
	// builtins
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.ObjectOf(id).(*types.Builtin); ok {
			return in.builtin(st, b.Name(), call)
		}
	}
	if ix, ok := fun.(*ast.IndexExpr); ok { // explicit instantiation
		if _, ok := in.typeOf(ix.X).Underlying().(*types.Signature); ok {
			fun = ix.X
		}
	}
	// static callees
	var id *ast.Ident
	switch f := fun.(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
		if sel, ok := info.Selections[f]; ok {
			if sel.Kind() == types.MethodVal {
				m := sel.Obj().(*types.Func)
				recv := in.receiver(st, f, m)
				args := in.args(st, call, m.Type().(*types.Signature))
				return in.callMethod(st, m, recv, args, call.Pos())
			}
			id = nil
		}
	}
	if id != nil {
		if fo, ok := info.ObjectOf(id).(*types.Func); ok {
			sig := in.typeOf(call.Fun).(*types.Signature)
			if fo.Pkg() != nil && fo.Pkg().Path() == "verifspec/sym" {
				return in.intrinsic(st, fo.Name(), call, sig)
			}
			return in.callFunc(st, fo, nil, in.args(st, call, sig), call.Pos())
		}
	}
	// function values
	fv := in.eval(st, fun)
	sig := fv.t.Underlying().(*types.Signature)
	args := in.args(st, call, sig)
	return in.callValue(st, fv.node(), sig, args, call.Pos())
}

func (in *Interp) callValue(st *State, f *Node, sig *types.Signature, args []Val, pos token.Pos) []Val {
	if f.kind == KIte {
		c := f.args[0]
		var va, vb []Val
		sa, sb := st.clone(), st.clone()
		in.under(c, func() { va = in.callValue(sa, f.args[1], sig, args, pos) })
		in.under(Not(c), func() { vb = in.callValue(sb, f.args[2], sig, args, pos) })
		st.cells = mergeStates(c, sa, sb).cells
		return mergeVals(c, va, vb)
	}
	if f.kind == KApp {
		if c, ok := in.closures[f.name]; ok {
			return in.callClosure(st, c, f.args, args, pos)
		}
		if strings.HasPrefix(f.name, "func:") {
			if d := in.prog.byKey[f.name[5:]]; d != nil {
				return in.callFunc(st, d.obj, nil, args, pos)
			}
		}
		if strings.HasPrefix(f.name, "method:") {
			if d := in.prog.byKey[f.name[7:]]; d != nil {
				rt := d.obj.Type().(*types.Signature).Recv().Type()
				return in.callMethod(st, d.obj, Val{rt, f.args}, args, pos)
			}
		}
	}
	return in.opaqueCall(st, "dyn", sig, append([]Val{scalar(sig, f)}, args...))
}

// opaqueCall is a call of which only the determinism is known: its results are functions of
// the content of the arguments
func (in *Interp) opaqueCall(st *State, name string, sig *types.Signature, args []Val) []Val {
	var ds []*Node
	var paths []string
	for _, a := range args {
		if isOpaquePtr(a.t) {
			continue
		}
		for _, d := range in.deep(st, a) {
			ds = append(ds, d.n)
			paths = append(paths, d.path)
		}
	}
	in.objSeq++
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		rn := fmt.Sprintf("%s.%d", name, i)
		mk := func(path string, s Sort, idx []*Node) *Node {
			n := rn + path
			appPaths[n] = paths
			if strings.HasSuffix(path, "#len") {
				natApps[n] = true
			}
			if len(idx) == 0 {
				return rebuildApp(&Node{kind: KApp, sort: s, name: n}, ds)
			}
			return ApplyAll(AppArr(n, Sig{len(idx), s}, ds...), idx...)
		}
		oid := fmt.Sprintf("%s!%s#%d", rn, in.frame.callKey, int(in.curPos))
		out = append(out, in.symbolicIn(st, t, oid, mk))
	}
	return out
}

// symbolicIn builds a symbolic value whose objects live in the current iteration
func (in *Interp) symbolicIn(st *State, t types.Type, id string, mk func(string, Sort, []*Node) *Node) Val {
	return in.symVal(st, t, id, "", nil, mk, "")
}

func (in *Interp) symVal(st *State, t types.Type, id, path string, idx []*Node, mk func(string, Sort, []*Node) *Node, root string) Val {
	if isFieldType(t) {
		return scalar(t, mk(path, SField, idx))
	}
	if isOpaqueStruct(t) {
		return scalar(t, mk(path, SRef, idx))
	}
	newObj := func(elem types.Type, path string, backing bool) *Object {
		o := in.fixedObject(id+path, id+path, elem, backing)
		o.root = root
		// the object is indexed by the position at which it is found
		for range idx {
			o.args = append(o.args, nil)
		}
		o.lifted = len(idx)
		var all []*Node
		for range idx {
			all = append(all, openIdx())
		}
		if backing {
			all = append(all, openIdx())
		}
		v := in.symVal(st, elem, id, path, all, mk, root)
		for i, l := range leaves(elem) {
			n := v.l[i]
			for j := len(all) - 1; j >= 0; j-- {
				n = mkLam(all[j], n)
			}
			st.cells[o.id+"|"+l.path] = n
		}
		return o
	}
	at := func(o *Object) *Node {
		return Addr(o.id+"|", append(append([]*Node{}, in.loops...), idx...)...)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		ln := mk(path+"#len", SInt, idx)
		o := newObj(u.Elem(), path+"[]", true)
		return sliceVal(t, at(o), IntC(0), ln, App("cap", SInt, at(o)))
	case *types.Struct:
		v := Val{t: t}
		for i := 0; i < u.NumFields(); i++ {
			f := in.symVal(st, u.Field(i).Type(), id, path+"."+u.Field(i).Name(), idx, mk, root)
			v.l = append(v.l, f.l...)
		}
		return v
	case *types.Array:
		x := openIdx()
		e := in.symVal(st, u.Elem(), id, path+"[]", append(append([]*Node{}, idx...), x), mk, root)
		v := Val{t: t}
		for _, n := range e.l {
			v.l = append(v.l, mkLam(x, n))
		}
		return v
	case *types.Pointer:
		if isOpaqueStruct(u.Elem()) {
			return scalar(t, mk(path, SRef, idx))
		}
		o := newObj(u.Elem(), path+"*", false)
		return scalar(t, at(o))
	case *types.Basic:
		return scalar(t, mk(path, leaves(t)[0].sort, idx))
	}
	return scalar(t, mk(path, SRef, idx))
}

func isOpaquePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isOpaqueStruct(p.Elem()) && !isFieldType(p.Elem())
}

func (in *Interp) callMethod(st *State, m *types.Func, recv Val, args []Val, pos token.Pos) []Val {
	if isInterface(recv.t) {
		return in.callInterface(st, m, recv, args, pos)
	}
	rt := m.Type().(*types.Signature).Recv().Type()
	base := rt
	if p, ok := rt.(*types.Pointer); ok {
		base = p.Elem()
	}
	if n, ok := types.Unalias(base).(*types.Named); ok && n.Obj().Pkg() != nil {
		pp, name := n.Obj().Pkg().Path(), n.Obj().Name()
		switch {
		case isFieldType(base) && name == "Element":
			return in.elementMethod(st, m.Name(), recv, args, m)
		case isFrontendVar(base):
			if m.Name() == "Assign" {
				in.store(st, recv.node(), scalar(base, in.fieldOf(args[0].node())))
				return nil
			}
			in.fail("frontend.Variable.%s", m.Name())
		case strings.HasSuffix(pp, "gnark/frontend") && name == "ConstraintSystem":
			return in.csMethod(st, m.Name(), args)
		case pp == "sync":
			return in.syncMethod(st, name, m.Name(), recv, args)
		}
	}
	return in.callFunc(st, m, &recv, args, pos)
}

func (in *Interp) callInterface(st *State, m *types.Func, recv Val, args []Val, pos token.Pos) []Val {
	n := recv.node()
	if n.kind == KIte {
		c := n.args[0]
		var va, vb []Val
		sa, sb := st.clone(), st.clone()
		in.under(c, func() { va = in.callInterface(sa, m, scalar(recv.t, n.args[1]), args, pos) })
		in.under(Not(c), func() { vb = in.callInterface(sb, m, scalar(recv.t, n.args[2]), args, pos) })
		st.cells = mergeStates(c, sa, sb).cells
		return mergeVals(c, va, vb)
	}
	if n.kind == KApp && strings.HasPrefix(n.name, "iface:") {
		t := in.ifaceTypes[n.name]
		o, _, _ := types.LookupFieldOrMethod(t, true, m.Pkg(), m.Name())
		f, ok := o.(*types.Func)
		if !ok {
			in.fail("method %s of %v", m.Name(), t)
		}
		r := Val{t, n.args}
		wantPtr := isPtr(f.Type().(*types.Signature).Recv().Type())
		if p, ok := t.Underlying().(*types.Pointer); ok && !wantPtr {
			r = in.load(st, r.node(), p.Elem())
		}
		return in.callMethod(st, f, r, args, pos)
	}
	if nt, ok := types.Unalias(recv.t).(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == modPath+"/circuit" && nt.Obj().Name() == "Gate" {
		if r, ok := in.gateContract(st, m.Name(), n, args); ok {
			return r
		}
	}
	sig := m.Type().(*types.Signature)
	return in.opaqueCall(st, "method:"+m.Name(), sig, append([]Val{recv}, args...))
}

// gateContract is what P06 establishes for every gate
func (in *Interp) gateContract(st *State, name string, g *Node, args []Val) ([]Val, bool) {
	ev := func(l, r *Node) *Node { return App("gate.Eval", SField, g, l, r) }
	switch name {
	case "Eval":
		ft := args[0].t.Underlying().(*types.Pointer).Elem()
		l := in.load(st, args[1].node(), ft).node()
		r := in.load(st, args[2].node(), ft).node()
		in.store(st, args[0].node(), scalar(ft, ev(l, r)))
		return nil, true
	case "EvalManyVL", "EvalManyVR":
		res := args[0]
		ft := res.t.Underlying().(*types.Slice).Elem()
		many, one := args[1], args[2]
		if name == "EvalManyVR" {
			many, one = args[2], args[1]
		}
		o := in.load(st, one.node(), ft).node()
		in.writeRange(st, res, many.l[2], func(x *Node) Val {
			v := in.load(st, addrIndex(many.l[0], Add(many.l[1], x), false), ft).node()
			if name == "EvalManyVL" {
				return scalar(ft, ev(v, o))
			}
			return scalar(ft, ev(o, v))
		})
		return nil, true
	case "GnarkEval":
		return []Val{scalar(args[1].t, ev(args[1].node(), args[2].node()))}, true
	case "ID":
		return []Val{scalar(types.Typ[types.String], App("gate.ID", SRef, g))}, true
	case "Degrees":
		var out []Val
		for _, n := range []string{"gate.DegHL", "gate.DegHR", "gate.DegHPrime"} {
			natApps[n] = true
			out = append(out, scalar(types.Typ[types.Int], App(n, SInt, g)))
		}
		return out, true
	}
	return nil, false
}

// writeRange stores f(x) at position x of a slice for all x in [0,n)
func (in *Interp) writeRange(st *State, dst Val, n *Node, f func(x *Node) Val) {
	if isZero(n) || dst.l[0] == zeroOf(SRef) {
		return
	}
	elem := dst.t.Underlying().(*types.Slice).Elem()
	// read everything first
	x := openIdx()
	x.info.hi = n
	var v Val
	withFacts([]*Node{Lt(x, n)}, func() { v = f(x) })
	in.writeLam(st, dst.l[0], dst.l[1], n, elem, x, v)
}

func (in *Interp) writeLam(st *State, ref, off, n *Node, elem types.Type, x *Node, v Val) {
	if ref.kind == KIte {
		c := ref.args[0]
		sa, sb := st.clone(), st.clone()
		in.under(c, func() { in.writeLam(sa, ref.args[1], off, n, elem, x, v) })
		in.under(Not(c), func() { in.writeLam(sb, ref.args[2], off, n, elem, x, v) })
		st.cells = mergeStates(c, sa, sb).cells
		return
	}
	if ref.kind != KAddr {
		in.fail("write through %s", show(ref))
	}
	o := in.obj(ref)
	idx := in.checkArgs(o, ref)
	_, p := splitAddr(ref)
	for i, l := range leaves(elem) {
		in.event("writerange", ref.name+l.path, ref, nil)
		k := o.id + "|" + p + l.path
		c := in.cell(st, o, p+l.path, l.sort, len(idx)+1+l.dims)
		var ys []*Node
		cond := NTrue
		r := c
		for _, ix := range idx {
			y := openIdx()
			ys = append(ys, y)
			cond = And(cond, mkEq(y, ix))
			r = Apply(r, y)
		}
		y := openIdx()
		pos := Sub(y, off)
		cond = And(cond, Le(IntC(0), pos), Lt(pos, n))
		nv := Subst(v.l[i], map[*Node]*Node{x: pos})
		body := Ite(cond, nv, Apply(r, y))
		body = mkLam(y, body)
		for j := len(ys) - 1; j >= 0; j-- {
			body = mkLam(ys[j], body)
		}
		st.cells[k] = body
	}
}

func (in *Interp) elementMethod(st *State, name string, recv Val, args []Val, m *types.Func) []Val {
	ptr := isPtr(recv.t)
	var ft types.Type = recv.t
	if ptr {
		ft = recv.t.Underlying().(*types.Pointer).Elem()
	}
	get := func(v Val) *Node {
		if isPtr(v.t) {
			return in.load(st, v.node(), ft).node()
		}
		return v.node()
	}
	set := func(n *Node) []Val {
		in.store(st, recv.node(), scalar(ft, n))
		return []Val{recv}
	}
	two := func() (*Node, *Node) { return get(args[0]), get(args[1]) }
	switch name {
	case "Add":
		x, y := two()
		return set(Add(x, y))
	case "Sub":
		x, y := two()
		return set(Sub(x, y))
	case "Mul":
		x, y := two()
		return set(Mul(x, y))
	case "Div":
		x, y := two()
		return set(Mul(x, mkInv(y)))
	case "AddAssign":
		return set(Add(get(recv), get(args[0])))
	case "SubAssign":
		return set(Sub(get(recv), get(args[0])))
	case "MulAssign":
		return set(Mul(get(recv), get(args[0])))
	case "Square":
		x := get(args[0])
		return set(Mul(x, x))
	case "Double":
		x := get(args[0])
		return set(Add(x, x))
	case "Neg":
		return set(Neg(get(args[0])))
	case "Inverse":
		return set(mkInv(get(args[0])))
	case "Set":
		return set(get(args[0]))
	case "SetOne":
		return set(FldC(1))
	case "SetZero":
		return set(FldC(0))
	case "SetUint64":
		return set(I2F(args[0].node()))
	case "SetString":
		s := args[0].node()
		if s.kind == KApp && strings.HasPrefix(s.name, "const:") {
			if i, ok := new(big.Int).SetString(s.name[6:], 10); ok {
				return set(Const(SField, new(big.Rat).SetInt(i)))
			}
		}
		return set(App("fr.SetString", SField, s))
	case "SetRandom":
		in.event("random", "", nil, nil)
		return set(newSym("random", SField, nil))
	case "IsZero":
		return []Val{scalar(types.Typ[types.Bool], mkEq0(get(recv)))}
	case "Equal":
		return []Val{scalar(types.Typ[types.Bool], mkEq(get(recv), get(args[0])))}
	case "String":
		return []Val{scalar(types.Typ[types.String], App("fr.String", SRef, get(recv)))}
	}
	in.fail("fr.Element.%s is not modelled", name)
	return nil
}

func (in *Interp) csMethod(st *State, name string, args []Val) []Val {
	ft := in.frontendVar()
	num := func(v Val) *Node { return in.fieldOf(v.node()) }
	ret := func(n *Node) []Val { return []Val{scalar(ft, n)} }
	rest := func(v Val, unit *Node, sum bool) *Node {
		ln := v.l[2]
		if v.l[0] == zeroOf(SRef) || isZero(ln) {
			return unit
		}
		elem := v.t.Underlying().(*types.Slice).Elem()
		k := loopSym("k", ln)
		x := in.load(st, addrIndex(v.l[0], Add(v.l[1], k), false), elem).node()
		x = Rebuild(x)
		n := in.fieldOf(x)
		if c, ok := constOf(ln); ok {
			r := unit
			for i := int64(0); i < c.Num().Int64(); i++ {
				y := Subst(n, map[*Node]*Node{k: IntC(i)})
				if sum {
					r = Add(r, y)
				} else {
					r = Mul(r, y)
				}
			}
			return r
		}
		if sum {
			return mkSum(k, n)
		}
		return mkProd(k, n)
	}
	switch name {
	case "Add":
		return ret(AddAll(SField, num(args[0]), num(args[1]), rest(args[2], FldC(0), true)))
	case "Sub":
		return ret(Sub(num(args[0]), num(args[1])))
	case "Mul":
		return ret(MulAll(SField, num(args[0]), num(args[1]), rest(args[2], FldC(1), false)))
	case "Inverse":
		in.assert(st, Not(mkEq0(num(args[0]))))
		return ret(mkInv(num(args[0])))
	case "Div":
		// nothing binds the quotient of zero by zero
		a, b := num(args[0]), num(args[1])
		in.assert(st, Or(Not(mkEq0(b)), mkEq0(a)))
		return ret(Ite(mkEq0(b), App("cs.Div", SField, a, b), Mul(a, mkInv(b))))
	case "AssertIsBoolean":
		x := num(args[0])
		in.assert(st, mkEq(Mul(x, x), x))
		return nil
	case "Select":
		b, x, y := num(args[0]), num(args[1]), num(args[2])
		in.assert(st, mkEq(Mul(b, b), b))
		return ret(Add(Mul(b, Sub(x, y)), y))
	case "Print", "Println":
		return nil
	case "NbConstraints":
		return []Val{scalar(types.Typ[types.Int], App("cs.NbConstraints", SInt))}
	case "Constant":
		return ret(num(args[0]))
	case "AssertIsEqual":
		in.assert(st, mkEq(num(args[0]), num(args[1])))
		return nil
	}
	in.fail("ConstraintSystem.%s is not modelled", name)
	return nil
}

func (in *Interp) assert(st *State, b *Node) {
	in.event("assert", "", b, nil)
	st.cells[assertCell] = And(st.cells[assertCell], b)
}

var frontendVarType types.Type

func (in *Interp) frontendVar() types.Type {
	if frontendVarType == nil {
		for _, p := range in.prog.pkgs {
			for _, i := range p.tpkg.Imports() {
				if strings.HasSuffix(i.Path(), "gnark/frontend") {
					frontendVarType = i.Scope().Lookup("Variable").Type()
				}
			}
		}
	}
	return frontendVarType
}

func (in *Interp) syncMethod(st *State, typ, name string, recv Val, args []Val) []Val {
	var arg *Node
	if len(args) > 0 {
		arg = args[0].l[0]
	}
	count := func() *Node {
		in.quiet++
		defer func() { in.quiet-- }()
		return in.loadLeaf(st, recv.node(), Leaf{sort: SInt})
	}
	add := func(n *Node) {
		in.quiet++
		defer func() { in.quiet-- }()
		in.storeLeaf(st, recv.node(), Leaf{sort: SInt}, Add(count(), n))
	}
	if typ+"."+name == "WaitGroup.Wait" {
		arg = count()
	}
	in.event(typ+"."+name, "", recv.node(), arg)
	switch typ + "." + name {
	case "WaitGroup.Add":
		add(arg)
		return nil
	case "WaitGroup.Done":
		add(IntC(-1))
		return nil
	case "WaitGroup.Wait":
		in.countTokens(st)
		return nil
	case "Mutex.Lock", "Mutex.Unlock", "RWMutex.Lock", "RWMutex.Unlock", "RWMutex.RLock", "RWMutex.RUnlock":
		return nil
	case "Once.Do":
		return in.callValue(st, args[0].node(), args[0].t.Underlying().(*types.Signature), nil, in.curPos)
	}
	in.fail("sync.%s.%s is not modelled", typ, name)
	return nil
}

// ---------------------------------------------------------------------------
// Functions with a body

func (in *Interp) callFunc(st *State, f *types.Func, recv *Val, args []Val, pos token.Pos) []Val {
	d := in.prog.funcs[f]
	key := funcKey(f)
	sig := f.Type().(*types.Signature)
	if g := f.Origin(); d == nil && g != nil {
		d = in.prog.funcs[g]
	}
	all := args
	if recv != nil {
		all = append([]Val{*recv}, args...)
	}
	if u := in.use[key]; u != nil && d != u {
		// a function replaced by its specification, which has an obligation of its own
		us := u.obj.Type().(*types.Signature)
		if u.broken != "" {
			in.fail("the specification does not fit the code: %s", u.broken)
		}
		if us.Params().Len() != len(all) || us.Results().Len() != sig.Results().Len() {
			in.fail("the specification of %s has another signature", key)
		}
		var params []types.Object
		for i := 0; i < us.Params().Len(); i++ {
			p := us.Params().At(i)
			if !types.Identical(p.Type(), all[i].t) && !types.AssignableTo(all[i].t, p.Type()) && len(leaves(p.Type())) != len(leaves(all[i].t)) {
				in.fail("the specification of %s has another signature", key)
			}
			params = append(params, p)
		}
		in.seen["(specified) "+key]++
		in.nCalls++
		return in.run(st, u.pkg, key, u.decl.Type, u.decl.Body, us, map[types.Object]*Node{}, params, all, pos)
	}
	if r, ok := in.model(st, key, sig, all); ok {
		return r
	}
	if d == nil {
		return in.external(st, key, sig, all)
	}
	if d.broken != "" {
		in.fail("the specification does not fit the code: %s", d.broken)
	}
	if in.opaque[key] {
		in.seen["(opaque) "+key]++
		if sig.Results().Len() == 0 {
			in.fail("%s is called for its effects, it cannot be opaque", key)
		}
		return in.opaqueCall(st, in.opaqueAs[key], sig, all)
	}
	depth := 0
	for _, k := range in.callStack {
		if k == key {
			depth++
		}
		if depth > 16 {
			in.fail("recursive call of %s", key)
		}
	}
	in.seen[key]++
	in.nCalls++
	var params []types.Object
	if recv != nil {
		if r := d.obj.Type().(*types.Signature).Recv(); r != nil {
			params = append(params, r)
		}
	}
	ds := d.obj.Type().(*types.Signature)
	for i := 0; i < ds.Params().Len(); i++ {
		params = append(params, ds.Params().At(i))
	}
	return in.run(st, d.pkg, key, d.decl.Type, d.decl.Body, ds, map[types.Object]*Node{}, params, all, pos)
}

func (in *Interp) callClosure(st *State, c *Closure, caps []*Node, args []Val, pos token.Pos) []Val {
	vars := map[types.Object]*Node{}
	for i, o := range c.caps {
		vars[o] = caps[i]
	}
	sig := c.pkg.info.Types[c.lit].Type.(*types.Signature)
	var params []types.Object
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, sig.Params().At(i))
	}
	name := "func literal"
	if in.frame != nil {
		name = in.frame.fn + ".func"
	}
	return in.run(st, c.pkg, name, c.lit.Type, c.lit.Body, sig, vars, params, args, pos)
}

func (in *Interp) run(st *State, pkg *Package, name string, ft *ast.FuncType, body *ast.BlockStmt, sig *types.Signature,
	vars map[types.Object]*Node, params []types.Object, args []Val, pos token.Pos) []Val {
	if in.depth > 60 {
		in.fail("call depth")
	}
	old := in.frame
	oldPos := in.curPos
	ck := fmt.Sprintf("%d", int(pos))
	if old != nil {
		ck = old.callKey + "/" + ck
	}
	in.frame = &Frame{vars: vars, pkg: pkg, fn: name, sig: sig, callKey: ck}
	in.depth++
	in.callStack = append(in.callStack, name)
	oldPath := in.path
	defer func() {
		in.frame = old
		in.depth--
		in.curPos = oldPos
		in.path = oldPath
		in.callStack = in.callStack[:len(in.callStack)-1]
	}()
	for i, p := range params {
		if i < len(args) {
			v := in.convert(st, args[i], p.Type())
			in.declare(st, p, Val{p.Type(), v.l})
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		if r.Name() != "" {
			in.declare(st, r, zeroVal(r.Type()))
			if r.Name() != "_" {
				in.frame.named = append(in.frame.named, r)
			}
		}
	}
	if len(in.frame.named) != sig.Results().Len() {
		in.frame.named = nil
	}
	panicsBefore := st.cells[panicCell]
	st.cells[panicCell] = NFalse
	out := in.block(st, body.List)
	if out.st != nil && sig.Results().Len() == 0 {
		out.rets = append(out.rets, Ret{NTrue, out.st, nil})
	}
	if len(out.rets) == 0 {
		in.fail("function %s never returns", name)
	}
	// ordered join
	n := len(out.rets)
	res := out.rets[n-1]
	rs, rv := res.st, res.vals
	for i := n - 2; i >= 0; i-- {
		r := out.rets[i]
		rs = mergeStates(r.g, r.st, rs)
		rv = mergeVals(r.g, r.vals, rv)
	}
	st.cells = rs.cells
	for i := len(in.frame.defers) - 1; i >= 0; i-- {
		d := in.frame.defers[i]
		if d.guard == NTrue {
			d.run(st)
			continue
		}
		s2 := st.clone()
		in.under(d.guard, func() { d.run(s2) })
		st.cells = mergeStates(d.guard, s2, st.clone()).cells
	}
	if len(in.frame.defers) > 0 && len(in.frame.named) > 0 {
		for i, o := range in.frame.named {
			rv[i] = in.load(st, in.frame.vars[o], o.Type())
		}
	}
	st.cells[panicCell] = Or(panicsBefore, st.cells[panicCell])
	return rv
}

func (in *Interp) deferStmt(st *State, s *ast.DeferStmt) {
	call := s.Call
	info := in.frame.pkg.info
	var run func(st *State)
	pos := call.Pos()
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.FuncLit:
		cv := in.funcLit(st, f)
		args := in.args(st, call, cv.t.Underlying().(*types.Signature))
		run = func(st *State) {
			in.callValue(st, cv.node(), cv.t.Underlying().(*types.Signature), args, pos)
		}
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[f]; ok && sel.Kind() == types.MethodVal {
			m := sel.Obj().(*types.Func)
			recv := in.receiver(st, f, m)
			args := in.args(st, call, m.Type().(*types.Signature))
			run = func(st *State) { in.callMethod(st, m, recv, args, pos) }
		}
	case *ast.Ident:
		if b, ok := info.ObjectOf(f).(*types.Builtin); ok {
			if b.Name() == "close" {
				ch := in.eval(st, call.Args[0])
				run = func(st *State) { in.chanClose(st, ch) }
			}
		}
	}
	if run == nil {
		fv := in.eval(st, call.Fun)
		args := in.args(st, call, fv.t.Underlying().(*types.Signature))
		run = func(st *State) { in.callValue(st, fv.node(), fv.t.Underlying().(*types.Signature), args, pos) }
	}
	if len(in.loops) > 0 && in.inLoopDisc > 0 {
		// a defer inside a loop of this function runs an unknown number of times
	}
	in.frame.defers = append(in.frame.defers, deferred{in.localGuard(), run})
}

// localGuard is the path condition inside the current function
func (in *Interp) localGuard() *Node { return And(in.path...) }

func (in *Interp) goStmt(st *State, s *ast.GoStmt) {
	g := &GoRoutine{id: len(in.events), pos: s.Pos(), loops: append([]*Node{}, in.loops...), fn: in.fnName()}
	call := s.Call
	info := in.frame.pkg.info
	var run func()
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.FuncLit:
		cv := in.funcLit(st, f)
		sig := cv.t.Underlying().(*types.Signature)
		args := in.args(st, call, sig)
		run = func() { in.callValue(st, cv.node(), sig, args, call.Pos()) }
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[f]; ok && sel.Kind() == types.MethodVal {
			m := sel.Obj().(*types.Func)
			recv := in.receiver(st, f, m)
			args := in.args(st, call, m.Type().(*types.Signature))
			run = func() { in.callMethod(st, m, recv, args, call.Pos()) }
		}
	}
	if run == nil {
		fv := in.eval(st, call.Fun)
		sig := fv.t.Underlying().(*types.Signature)
		args := in.args(st, call, sig)
		run = func() { in.callValue(st, fv.node(), sig, args, call.Pos()) }
	}
	in.anyGo = true
	in.event("go", "", nil, nil)
	if in.quiet == 0 {
		in.events[len(in.events)-1].gor = g
	}
	in.goCtx = append(in.goCtx, g)
	run()
	in.goCtx = in.goCtx[:len(in.goCtx)-1]
	in.event("goend", "", nil, nil)
	in.countTokens(st)
}

// ---------------------------------------------------------------------------
// Builtins

func (in *Interp) builtin(st *State, name string, call *ast.CallExpr) []Val {
	tInt := types.Typ[types.Int]
	switch name {
	case "len", "cap":
		t := in.typeOf(call.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Slice:
			v := in.eval(st, call.Args[0])
			if name == "len" {
				return []Val{scalar(tInt, v.l[2])}
			}
			return []Val{scalar(tInt, v.l[3])}
		case *types.Array:
			return []Val{scalar(tInt, IntC(u.Len()))}
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return []Val{scalar(tInt, IntC(a.Len()))}
			}
		case *types.Chan:
			v := in.eval(st, call.Args[0])
			if name == "len" && (strings.HasPrefix(in.frame.pkg.path, "verifspec/") || !in.anyGo) {
				// how much was sent and not yet received; in the code under analysis this depends on the schedule
				// as soon as there are goroutines
				in.quiet++
				defer func() { in.quiet-- }()
				a := v.node()
				return []Val{scalar(tInt, Sub(in.loadLeaf(st, a, Leaf{path: "#sent", sort: SInt}), in.loadLeaf(st, a, Leaf{path: "#recv", sort: SInt})))}
			}
			return []Val{scalar(tInt, App("chan"+name, SInt, v.node()))}
		case *types.Basic:
			v := in.eval(st, call.Args[0])
			return []Val{scalar(tInt, App("len", SInt, v.node()))}
		}
		in.fail("%s of %v", name, t)
	case "make":
		t := in.typeOf(call)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := in.eval(st, call.Args[1]).node()
			c := n
			if len(call.Args) > 2 {
				c = in.eval(st, call.Args[2]).node()
			}
			in.bound(And(Le(IntC(0), n), Le(n, c)))
			o := in.fixedObject(in.objID("make", call.Pos()), "make", u.Elem(), true)
			o.size = c
			in.initObject(st, o, zeroVal(u.Elem()))
			return []Val{sliceVal(t, o.addr(), IntC(0), n, c)}
		case *types.Map:
			return []Val{in.makeMap(st, t, call.Pos())}
		case *types.Chan:
			c := IntC(0)
			if len(call.Args) > 1 {
				c = in.eval(st, call.Args[1]).node()
			}
			in.bound(Le(IntC(0), c))
			return []Val{in.makeChan(st, t, c, call.Pos())}
		}
		in.fail("make of %v", t)
	case "new":
		t := in.typeOf(call)
		elem := t.Underlying().(*types.Pointer).Elem()
		o := in.fixedObject(in.objID("new", call.Pos()), "new", elem, false)
		in.initObject(st, o, zeroVal(elem))
		return []Val{scalar(t, o.addr())}
	case "append":
		return []Val{in.appendCall(st, call)}
	case "copy":
		dst := in.eval(st, call.Args[0])
		src := in.eval(st, call.Args[1])
		n := minInt(dst.l[2], src.l[2])
		elem := dst.t.Underlying().(*types.Slice).Elem()
		in.writeRange(st, dst, n, func(x *Node) Val {
			return in.load(st, addrIndex(src.l[0], Add(src.l[1], x), false), elem)
		})
		return []Val{scalar(tInt, n)}
	case "panic":
		for _, a := range call.Args {
			in.quiet++
			in.eval(st, a)
			in.quiet--
		}
		st.cells[panicCell] = NTrue
		in.event("panic", "", nil, nil)
		return nil
	case "close":
		in.chanClose(st, in.eval(st, call.Args[0]))
		return nil
	case "min", "max":
		v := in.eval(st, call.Args[0])
		r := v.node()
		for _, a := range call.Args[1:] {
			y := in.eval(st, a).node()
			if name == "min" {
				r = minInt(r, y)
			} else {
				r = Ite(Le(y, r), r, y)
			}
		}
		return []Val{scalar(v.t, r)}
	case "print", "println":
		return nil
	case "delete":
		in.fail("delete")
	}
	in.fail("builtin %s", name)
	return nil
}

func minInt(a, b *Node) *Node {
	if a == b {
		return a
	}
	return Ite(Le(a, b), a, b)
}

func (in *Interp) appendCall(st *State, call *ast.CallExpr) Val {
	s := in.eval(st, call.Args[0])
	t := in.typeOf(call)
	s = in.convert(st, s, t)
	elem := t.Underlying().(*types.Slice).Elem()
	ls := leaves(elem)
	var more *Node
	var add func(x *Node) Val // x-th added element
	if call.Ellipsis.IsValid() {
		y := in.convert(st, in.eval(st, call.Args[1]), t)
		more = y.l[2]
		add = func(x *Node) Val {
			if y.l[0] == zeroOf(SRef) {
				return zeroVal(elem)
			}
			return in.load(st, addrIndex(y.l[0], Add(y.l[1], x), false), elem)
		}
	} else {
		var vals []Val
		for _, a := range call.Args[1:] {
			vals = append(vals, in.convert(st, in.eval(st, a), elem))
		}
		more = IntC(int64(len(vals)))
		add = func(x *Node) Val {
			r := zeroVal(elem)
			for j, v := range vals {
				for i := range r.l {
					if j == len(vals)-1 && j == 0 {
						r.l[i] = v.l[i]
						continue
					}
					r.l[i] = Ite(mkEq(x, IntC(int64(j))), v.l[i], r.l[i])
				}
			}
			return r
		}
	}
	if isZero(more) {
		return s
	}
	ln := Add(s.l[2], more)
	o := in.fixedObject(in.objID("append", call.Pos()), "append", elem, true)
	o.size = ln
	if s.l[0] != zeroOf(SRef) {
		// the spare capacity of the first operand may be written
		if !isZero(Sub(s.l[3], s.l[2])) {
			in.event("append", "", s.l[0], s.l[2])
		}
		o.tailOf, o.tailLen = s.l[0], s.l[2]
	}
	x := openIdx()
	newv := add(Sub(x, s.l[2]))
	var oldv Val
	if s.l[0] == zeroOf(SRef) || isZero(s.l[2]) {
		oldv = Val{elem, make([]*Node, len(ls))}
	} else {
		oldv = in.load(st, addrIndex(s.l[0], Add(s.l[1], x), false), elem)
	}
	for i, l := range ls {
		// the spare capacity is zeroed
		b := Ite(Lt(x, ln), newv.l[i], lift(zeroOf(l.sort), l.dims))
		if oldv.l[i] != nil {
			b = Ite(Lt(x, s.l[2]), oldv.l[i], b)
		}
		st.cells[o.id+"|"+l.path] = mkLam(x, b)
	}
	return sliceVal(t, o.addr(), IntC(0), ln, App("cap", SInt, o.addr()))
}

// ---------------------------------------------------------------------------
// Maps

func (in *Interp) makeMap(st *State, t types.Type, pos token.Pos) Val {
	mt := t.Underlying().(*types.Map)
	o := in.fixedObject(in.objID("map", pos), "map", mt.Elem(), true)
	st.cells[o.id+"|#has"] = mapLam(func(k *Node) *Node { return NFalse }, mt)
	for i, l := range leaves(mt.Elem()) {
		i := i
		st.cells[o.id+"|"+l.path] = mapLam(func(k *Node) *Node { return zeroVal(mt.Elem()).l[i] }, mt)
	}
	return scalar(t, o.addr())
}

func mapLam(f func(k *Node) *Node, mt *types.Map) *Node {
	ks := leaves(mt.Key())
	if len(ks) != 1 {
		fail("map key %v", mt.Key())
	}
	k := openIdx()
	if ks[0].sort != SInt {
		k = newSym("o", ks[0].sort, nil)
	}
	return mkLam(k, f(k))
}

func (in *Interp) mapGet(st *State, m, k *Node, elem types.Type) (Val, *Node) {
	if m.kind != KAddr {
		in.fail("map %s", show(m))
	}
	a := addrIndex(m, k, false)
	has := in.loadLeaf(st, a, Leaf{path: "#has", sort: SBool})
	// what no key was given is zero
	return in.load(st, a, elem), has
}

func (in *Interp) mapSet(st *State, m, k *Node, v Val) {
	a := addrIndex(m, k, false)
	in.storeLeaf(st, a, Leaf{path: "#has", sort: SBool}, NTrue)
	in.store(st, a, v)
}

// ---------------------------------------------------------------------------
// Channels: the history of what was sent, and how much of it was received

func (in *Interp) makeChan(st *State, t types.Type, capacity *Node, pos token.Pos) Val {
	ct := t.Underlying().(*types.Chan)
	o := in.fixedObject(in.objID("chan", pos), "chan", ct.Elem(), true)
	o.size = capacity
	if in.chanIDs == nil {
		in.chanIDs = map[string]bool{}
	}
	if !in.chanIDs[o.id] {
		in.chanIDs[o.id] = true
		in.chans = append(in.chans, o)
	}
	st.cells[o.id+"|#sent"] = IntC(0)
	st.cells[o.id+"|#recv"] = IntC(0)
	in.initObject(st, o, zeroVal(ct.Elem()))
	in.quietEvent("makechan", o.addr(), capacity)
	return scalar(t, o.addr())
}

func (in *Interp) quietEvent(kind string, node, arg *Node) { in.event(kind, "", node, arg) }

func (in *Interp) chanSend(st *State, ch Val, v Val) {
	a := ch.node()
	in.quiet++
	n := in.loadLeaf(st, a, Leaf{path: "#sent", sort: SInt})
	there := Sub(n, in.loadLeaf(st, a, Leaf{path: "#recv", sort: SInt}))
	in.quiet--
	in.event("send", "", a, there)
	if in.quiet == 0 {
		e := &in.events[len(in.events)-1]
		for i, l := range leaves(v.t) {
			if l.sort == SRef && l.dims == 0 {
				e.extra = append(e.extra, v.l[i])
			}
		}
	}
	in.quiet++
	defer func() { in.quiet-- }()
	in.store(st, addrIndex(a, n, false), v)
	in.storeLeaf(st, a, Leaf{path: "#sent", sort: SInt}, Add(n, IntC(1)))
}

func (in *Interp) chanRecv(st *State, ch Val) (Val, *Node) {
	a := ch.node()
	in.quiet++
	n := in.loadLeaf(st, a, Leaf{path: "#recv", sort: SInt})
	there := Sub(in.loadLeaf(st, a, Leaf{path: "#sent", sort: SInt}), n)
	in.quiet--
	in.event("recv", "", a, there)
	in.countTokens(st)
	in.quiet++
	defer func() { in.quiet-- }()
	elem := ch.t.Underlying().(*types.Chan).Elem()
	v := in.load(st, addrIndex(a, n, false), elem)
	in.storeLeaf(st, a, Leaf{path: "#recv", sort: SInt}, Add(n, IntC(1)))
	return v, NTrue
}

// countTokens notes the permits available of the semaphores when someone waits
func (in *Interp) countTokens(st *State) {
	if in.quiet > 0 {
		return
	}
	e := &in.events[len(in.events)-1]
	for _, o := range in.chans {
		if !isToken(o.elem) || len(o.args) > len(in.loops) {
			continue
		}
		if sharedLoops(o.args, in.loops) < len(o.args) {
			continue
		}
		if st.cells[o.id+"|#sent"] == nil {
			continue
		}
		in.quiet++
		e.tokens = append(e.tokens, tokens{o.id, Sub(in.loadLeaf(st, o.addr(), Leaf{path: "#sent", sort: SInt}), in.loadLeaf(st, o.addr(), Leaf{path: "#recv", sort: SInt})), o.size})
		in.quiet--
	}
}

func (in *Interp) chanClose(st *State, ch Val) { in.event("close", "", ch.node(), nil) }

// ---------------------------------------------------------------------------
// Functions outside of the repository

func (in *Interp) external(st *State, key string, sig *types.Signature, args []Val) []Val {
	in.seen["(external) "+key]++
	switch key {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "errors.New":
		if last := len(args) - 1; (key == "fmt.Sprintf" || key == "fmt.Sprint") && len(args[last].l) == 4 {
			if n, ok := constOf(args[last].l[2]); ok && n.IsInt() {
				var vals []*Node
				for i := int64(0); i < n.Num().Int64(); i++ {
					elem := args[last].t.Underlying().(*types.Slice).Elem()
					vals = append(vals, in.load(st, addrIndex(args[last].l[0], Add(args[last].l[1], IntC(i)), false), elem).node())
				}
				f := textConst(strings.Repeat("%s", len(vals)))
				if key == "fmt.Sprintf" {
					f = args[0].node()
				} else {
					for _, v := range vals {
						if v.kind != KApp || v.name != "iface:string" {
							f = nil // spaces between other values
						}
					}
				}
				if f == nil {
				} else if x := format(f, vals); x != nil {
					return []Val{scalar(sig.Results().At(0).Type(), x)}
				}
			}
		}
		var ds []*Node
		for _, a := range args {
			for _, d := range in.deep(st, a) {
				ds = append(ds, d.n)
			}
		}
		return []Val{scalar(sig.Results().At(0).Type(), App(key, SRef, ds...))}
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return in.opaqueCall(st, key, sig, args)
	case "github.com/consensys/gurvy/bn256/fr.One":
		return []Val{scalar(sig.Results().At(0).Type(), FldC(1))}
	case "math/bits.Len", "math/bits.Len64":
		x := args[0].node()
		return []Val{scalar(sig.Results().At(0).Type(), Ite(Le(IntC(1), x), Add(log2floor(x), IntC(1)), IntC(0)))}
	case "os.Getenv", "strconv.Atoi", "strconv.Itoa":
		return in.opaqueCall(st, key, sig, args)
	}
	in.fail("call of %s, which is not modelled", key)
	return nil
}

// model gives the specification of functions that are verified on their own
func (in *Interp) model(st *State, key string, sig *types.Signature, args []Val) ([]Val, bool) {
	if m, ok := models[key]; ok && in.opaque[key] {
		in.seen["(specified) "+key]++
		return m(in, st, sig, args), true
	}
	return nil, false
}

var models = map[string]func(in *Interp, st *State, sig *types.Signature, args []Val) []Val{}
