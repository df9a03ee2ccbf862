package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Constants (P21): a flow-insensitive, whole-program points-to analysis (inclusion based, filtered by types, functions
// analysed once for the initialisation of the packages and once for everything after). After the initialisation, no
// statement of the repository writes what is reachable from a package variable.

type aObj struct {
	name    string
	typ     types.Type // of the memory
	content *aNode
	global  *types.Var
	fn      *FuncDecl
	lit     *ast.FuncLit
	litPkg  *Package
	recv    *aNode // of a method value
	run     bool
}

type aNode struct {
	typ   types.Type
	pts   map[*aObj]bool
	onAdd []func(*aObj)
	flows map[*aNode]bool
}

type aVar struct {
	run bool
	v   types.Object
}

type aEvent struct {
	n    *aNode
	pos  token.Pos
	fn   string
	what string
}

type aUnit struct {
	reads, writes []aEvent
	calls         []*FuncDecl
	lits          []*ast.FuncLit
	pos           token.Pos
}

type aliases struct {
	p       *Program
	vars    map[aVar]*aNode
	objs    map[aVar]*aObj
	results map[string]*aNode
	fnObjs  map[*types.Func]*aObj
	done    map[string]bool
	queue   []func()
	writes  []aEvent // after the initialisation
	globals []*types.Var
	targets map[types.Type][]types.Type
	concr   []*types.Named

	// while walking
	pkg    *Package
	run    bool
	fn     string
	rets   []*aNode
	unit   *aUnit
	unitOf map[*FuncDecl]*aUnit
	sites  int
}

// refTargets are the types of the memory that a value of type t refers to (nil: anything)
func (a *aliases) refTargets(t types.Type) ([]types.Type, bool) {
	var l []types.Type
	any := false
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			l = append(l, u.Elem())
		case *types.Slice:
			l = append(l, u.Elem())
		case *types.Chan:
			l = append(l, u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(u.At(i).Type())
			}
		case *types.Basic:
			if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
				any = true
			}
		default: // maps, functions, interfaces, type parameters
			any = true
		}
	}
	if t == nil {
		return nil, true
	}
	walk(t)
	return l, any
}

// within tells whether a value of type in is part of a value of type t
func within(in, t types.Type, depth int) bool {
	if types.Identical(in, t) || types.Identical(in.Underlying(), t.Underlying()) {
		return true
	}
	if depth == 0 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return within(in, u.Elem(), depth-1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if within(in, u.Field(i).Type(), depth-1) {
				return true
			}
		}
	case *types.Interface:
		return true
	}
	return false
}

func (a *aliases) fits(o *aObj, t types.Type) bool {
	l, any := a.refTargets(t)
	if any || o.typ == nil {
		return true
	}
	for _, x := range l {
		if within(x, o.typ, 4) || within(o.typ, x, 4) {
			return true
		}
	}
	return false
}

func (a *aliases) hasRefs(t types.Type) bool {
	if t == nil {
		return true
	}
	l, any := a.refTargets(t)
	return any || len(l) > 0
}

func (a *aliases) node(t types.Type) *aNode {
	return &aNode{typ: t, pts: map[*aObj]bool{}, flows: map[*aNode]bool{}}
}

func (a *aliases) add(n *aNode, o *aObj) {
	if n == nil || n.pts[o] || !a.fits(o, n.typ) {
		return
	}
	n.pts[o] = true
	for _, f := range n.onAdd {
		f := f
		a.queue = append(a.queue, func() { f(o) })
	}
}

func (a *aliases) each(n *aNode, f func(*aObj)) {
	if n == nil {
		return
	}
	n.onAdd = append(n.onAdd, f)
	for o := range n.pts {
		o := o
		a.queue = append(a.queue, func() { f(o) })
	}
}

func (a *aliases) flow(src, dst *aNode) {
	if src == nil || dst == nil || src == dst || src.flows[dst] {
		return
	}
	src.flows[dst] = true
	a.each(src, func(o *aObj) { a.add(dst, o) })
}

func (a *aliases) load(ptr *aNode, t types.Type) *aNode {
	a.read(ptr)
	if ptr == nil || !a.hasRefs(t) {
		return nil
	}
	n := a.node(t)
	a.each(ptr, func(o *aObj) { a.flow(o.content, n) })
	return n
}

func (a *aliases) store(ptr, v *aNode) {
	if ptr == nil || v == nil {
		return
	}
	a.each(ptr, func(o *aObj) { a.flow(v, o.content) })
}

func (a *aliases) object(name string, t types.Type) *aObj {
	return &aObj{name: name, typ: t, content: a.node(t), run: a.run}
}

func (a *aliases) points(o *aObj, t types.Type) *aNode {
	n := a.node(t)
	a.add(n, o)
	return n
}

func (a *aliases) isGlobal(v types.Object) bool {
	x, ok := v.(*types.Var)
	return ok && !x.IsField() && x.Pkg() != nil && x.Parent() == x.Pkg().Scope()
}

func (a *aliases) key(v types.Object) aVar {
	if a.isGlobal(v) {
		return aVar{false, v}
	}
	return aVar{a.run, v}
}

func (a *aliases) varNode(v types.Object) *aNode {
	k := a.key(v)
	n := a.vars[k]
	if n == nil {
		n = a.node(v.Type())
		a.vars[k] = n
	}
	return n
}

func (a *aliases) varObj(v types.Object) *aObj {
	k := a.key(v)
	o := a.objs[k]
	if o == nil {
		o = &aObj{name: v.Name(), typ: v.Type(), content: a.varNode(v), run: k.run}
		if a.isGlobal(v) {
			o.global = v.(*types.Var)
		}
		a.objs[k] = o
	}
	return o
}

func (a *aliases) read(n *aNode) {
	if n != nil && !a.run && a.unit != nil {
		a.unit.reads = append(a.unit.reads, aEvent{n: n})
	}
}

func (a *aliases) write(n *aNode, pos token.Pos, what string) {
	a.sites++
	if n == nil {
		return
	}
	e := aEvent{n, pos, a.fn, what}
	if a.run {
		a.writes = append(a.writes, e)
	} else if a.unit != nil {
		a.unit.writes = append(a.unit.writes, e)
	}
}

func (a *aliases) typeOf(e ast.Expr) types.Type { return a.pkg.info.TypeOf(e) }

func (a *aliases) exprs(l []ast.Expr) {
	for _, e := range l {
		a.expr(e)
	}
}

// expr returns what the value of e refers to
func (a *aliases) expr(e ast.Expr) *aNode {
	info := a.pkg.info
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		return a.expr(e.X)
	case *ast.Ident:
		switch o := info.ObjectOf(e).(type) {
		case *types.Var:
			if a.isGlobal(o) {
				a.read(a.points(a.varObj(o), nil))
			}
			return a.varNode(o)
		case *types.Func:
			return a.points(a.funcObj(o), nil)
		}
		return nil
	case *ast.BasicLit:
		return nil
	case *ast.SelectorExpr:
		if s := info.Selections[e]; s != nil {
			switch s.Kind() {
			case types.FieldVal:
				if isPtr(s.Recv()) || s.Indirect() {
					return a.load(a.expr(e.X), a.typeOf(e))
				}
				return a.filtered(a.expr(e.X), a.typeOf(e))
			case types.MethodVal:
				f, _ := s.Obj().(*types.Func)
				r := a.receiver(e, s)
				if d := a.p.funcs[f]; d != nil {
					return a.points(&aObj{name: f.Name(), fn: d, recv: r, content: a.node(nil)}, nil)
				}
				return nil
			}
			a.expr(e.X)
			if f, ok := s.Obj().(*types.Func); ok {
				return a.points(a.funcObj(f), nil)
			}
			return nil
		}
		switch o := info.ObjectOf(e.Sel).(type) {
		case *types.Var:
			if o.Pkg() != nil && a.p.pkgs[o.Pkg().Path()] == nil {
				return nil
			}
			a.read(a.points(a.varObj(o), nil))
			return a.varNode(o)
		case *types.Func:
			return a.points(a.funcObj(o), nil)
		}
		return nil
	case *ast.IndexExpr:
		if tv, ok := info.Types[e.Index]; ok && tv.IsType() {
			return a.expr(e.X)
		}
		a.expr(e.Index)
		x := a.expr(e.X)
		switch a.typeOf(e.X).Underlying().(type) {
		case *types.Array:
			return a.filtered(x, a.typeOf(e))
		case *types.Basic:
			return nil
		}
		return a.load(x, a.typeOf(e))
	case *ast.IndexListExpr:
		return a.expr(e.X)
	case *ast.SliceExpr:
		a.expr(e.Low)
		a.expr(e.High)
		a.expr(e.Max)
		if _, ok := a.typeOf(e.X).Underlying().(*types.Array); ok {
			return a.addr(e.X)
		}
		return a.expr(e.X)
	case *ast.StarExpr:
		return a.load(a.expr(e.X), a.typeOf(e))
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			return a.addr(e.X)
		case token.ARROW:
			return a.load(a.expr(e.X), a.typeOf(e))
		}
		a.expr(e.X)
		return nil
	case *ast.BinaryExpr:
		a.expr(e.X)
		a.expr(e.Y)
		return nil
	case *ast.TypeAssertExpr:
		return a.filtered(a.expr(e.X), a.typeOf(e))
	case *ast.KeyValueExpr:
		return a.expr(e.Value)
	case *ast.CompositeLit:
		t := a.typeOf(e)
		n := a.node(nil)
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if _, field := t.Underlying().(*types.Struct); !field {
					a.expr(kv.Key)
				}
				x = kv.Value
			}
			a.flow(a.expr(x), n)
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			o := a.object("literal", u.Elem())
			a.flow(n, o.content)
			return a.points(o, t)
		case *types.Map:
			o := a.object("literal", nil)
			a.flow(n, o.content)
			return a.points(o, t)
		case *types.Pointer: // elided &T in a literal
			o := a.object("literal", u.Elem())
			a.flow(n, o.content)
			return a.points(o, t)
		}
		return n
	case *ast.FuncLit:
		o := &aObj{name: "function", lit: e, litPkg: a.pkg, content: a.node(nil), run: a.run}
		a.body(a.litKey(e), a.pkg, a.fn, e.Type, e.Body)
		return a.points(o, nil)
	case *ast.CallExpr:
		return a.call(e)
	}
	return nil
}

func (a *aliases) filtered(n *aNode, t types.Type) *aNode {
	if n == nil || !a.hasRefs(t) {
		return nil
	}
	m := a.node(t)
	a.flow(n, m)
	return m
}

// addr returns what the address of e refers to
func (a *aliases) addr(e ast.Expr) *aNode {
	info := a.pkg.info
	switch e := e.(type) {
	case *ast.ParenExpr:
		return a.addr(e.X)
	case *ast.Ident:
		if v, ok := info.ObjectOf(e).(*types.Var); ok {
			return a.points(a.varObj(v), nil)
		}
		return nil
	case *ast.SelectorExpr:
		if s := info.Selections[e]; s != nil && s.Kind() == types.FieldVal {
			if isPtr(s.Recv()) || s.Indirect() {
				return a.expr(e.X)
			}
			return a.addr(e.X)
		}
		if v, ok := info.ObjectOf(e.Sel).(*types.Var); ok {
			return a.points(a.varObj(v), nil)
		}
		return nil
	case *ast.IndexExpr:
		a.expr(e.Index)
		if _, ok := a.typeOf(e.X).Underlying().(*types.Array); ok {
			return a.addr(e.X)
		}
		return a.expr(e.X)
	case *ast.StarExpr:
		return a.expr(e.X)
	}
	// a temporary
	o := a.object("temporary", a.typeOf(e))
	a.flow(a.expr(e), o.content)
	return a.points(o, nil)
}

// receiver is the value bound to the receiver of a method
func (a *aliases) receiver(e *ast.SelectorExpr, s *types.Selection) *aNode {
	f := s.Obj().(*types.Func)
	want := f.Type().(*types.Signature).Recv().Type()
	have := a.typeOf(e.X)
	if isPtr(want) && !isPtr(have) {
		return a.addr(e.X)
	}
	if !isPtr(want) && isPtr(have) {
		return a.load(a.expr(e.X), want)
	}
	return a.expr(e.X)
}

func (a *aliases) funcObj(f *types.Func) *aObj {
	o := a.fnObjs[f]
	if o == nil {
		o = &aObj{name: f.Name(), fn: a.p.funcs[f], content: a.node(nil)}
		a.fnObjs[f] = o
	}
	return o
}

func (a *aliases) litKey(l *ast.FuncLit) string { return fmt.Sprintf("%v lit %d", a.run, l.Pos()) }
func (a *aliases) fnKey(d *FuncDecl) string     { return fmt.Sprintf("%v %s", a.run, funcKey(d.obj)) }

func (a *aliases) result(key string, i int, t types.Type) *aNode {
	k := fmt.Sprint(key, " ", i)
	n := a.results[k]
	if n == nil {
		n = a.node(t)
		a.results[k] = n
	}
	return n
}

// enter binds the arguments of a call and returns what the results refer to
func (a *aliases) enter(d *FuncDecl, recv *aNode, args []*aNode, variadic bool) []*aNode {
	sig := d.obj.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		a.flow(recv, a.varNode(r))
		if d.decl.Recv != nil && len(d.decl.Recv.List) > 0 && len(d.decl.Recv.List[0].Names) > 0 {
			a.flow(recv, a.varNode(d.pkg.info.ObjectOf(d.decl.Recv.List[0].Names[0])))
		}
	}
	a.bind(sig, args, variadic)
	a.fnBody(d)
	if a.unit != nil {
		a.unit.calls = append(a.unit.calls, d)
	}
	return a.resultsOf(a.fnKey(d), sig)
}

func (a *aliases) resultsOf(key string, sig *types.Signature) []*aNode {
	var l []*aNode
	for i := 0; i < sig.Results().Len(); i++ {
		l = append(l, a.result(key, i, sig.Results().At(i).Type()))
	}
	return l
}

func (a *aliases) bind(sig *types.Signature, args []*aNode, spread bool) {
	n := sig.Params().Len()
	for i, x := range args {
		if sig.Variadic() && i >= n-1 && !spread {
			v := sig.Params().At(n - 1)
			o := a.object("arguments", v.Type().Underlying().(*types.Slice).Elem())
			a.flow(x, o.content)
			a.add(a.varNode(v), o)
			continue
		}
		if i < n {
			a.flow(x, a.varNode(sig.Params().At(i)))
		}
	}
}

func (a *aliases) fnBody(d *FuncDecl) {
	k := a.fnKey(d)
	if a.done[k] || d.decl.Body == nil {
		return
	}
	oldUnit, oldFn := a.unit, a.fn
	if !a.run {
		u := a.unitOf[d]
		if u == nil {
			u = &aUnit{pos: d.decl.Pos()}
			a.unitOf[d] = u
		}
		a.unit = u
	}
	a.body(k, d.pkg, funcKey(d.obj), d.decl.Type, d.decl.Body)
	a.unit, a.fn = oldUnit, oldFn
}

func (a *aliases) body(key string, pkg *Package, fn string, ft *ast.FuncType, b *ast.BlockStmt) {
	if a.done[key] {
		return
	}
	a.done[key] = true
	oldPkg, oldFn, oldRets := a.pkg, a.fn, a.rets
	a.pkg, a.fn = pkg, fn
	a.rets = nil
	i := 0
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			names := f.Names
			if len(names) == 0 {
				a.rets = append(a.rets, a.result(key, i, a.typeOf(f.Type)))
				i++
			}
			for _, n := range names {
				r := a.result(key, i, a.typeOf(f.Type))
				if o := pkg.info.ObjectOf(n); o != nil {
					a.flow(a.varNode(o), r)
				}
				a.rets = append(a.rets, r)
				i++
			}
		}
	}
	a.stmt(b)
	a.pkg, a.fn, a.rets = oldPkg, oldFn, oldRets
}

// later runs f in the current context
func (a *aliases) later(n *aNode, f func(*aObj)) {
	pkg, run, fn, unit := a.pkg, a.run, a.fn, a.unit
	a.each(n, func(o *aObj) {
		p2, r2, f2, u2, t2 := a.pkg, a.run, a.fn, a.unit, a.rets
		a.pkg, a.run, a.fn, a.unit = pkg, run, fn, unit
		f(o)
		a.pkg, a.run, a.fn, a.unit, a.rets = p2, r2, f2, u2, t2
	})
}

func (a *aliases) call(e *ast.CallExpr) *aNode {
	rs := a.calls(e)
	if len(rs) == 0 {
		return nil
	}
	if len(rs) == 1 {
		return rs[0]
	}
	n := a.node(nil)
	for _, r := range rs {
		a.flow(r, n)
	}
	return n
}

// calls returns what each result of a call refers to
func (a *aliases) calls(e *ast.CallExpr) []*aNode {
	info := a.pkg.info
	fun := ast.Unparen(e.Fun)
	if tv := info.Types[fun]; tv.IsType() {
		return []*aNode{a.filtered(a.expr(e.Args[0]), a.typeOf(e))}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.ObjectOf(id).(*types.Builtin); ok {
			return []*aNode{a.builtin(b.Name(), e)}
		}
	}
	var args []*aNode
	if len(e.Args) == 1 {
		if c, ok := ast.Unparen(e.Args[0]).(*ast.CallExpr); ok {
			if _, tuple := a.typeOf(c).(*types.Tuple); tuple {
				args = a.calls(c)
			}
		}
	}
	if args == nil {
		for _, x := range e.Args {
			args = append(args, a.expr(x))
		}
	}
	spread := e.Ellipsis.IsValid()
	// instantiations
	base := fun
	switch x := base.(type) {
	case *ast.IndexExpr:
		if tv, ok := info.Types[x.Index]; ok && tv.IsType() {
			base = x.X
		}
	case *ast.IndexListExpr:
		base = x.X
	}
	switch x := base.(type) {
	case *ast.Ident:
		if f, ok := info.ObjectOf(x).(*types.Func); ok {
			if d := a.p.funcs[f.Origin()]; d != nil {
				return a.enter(d, nil, args, spread)
			}
			return a.foreign(e, f, nil, args)
		}
	case *ast.SelectorExpr:
		if s := info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
			f := s.Obj().(*types.Func)
			if it, ok := s.Recv().Underlying().(*types.Interface); ok {
				return a.dynamic(e, it, f, a.expr(x.X), args, spread)
			}
			r := a.receiver(x, s)
			if d := a.p.funcs[f.Origin()]; d != nil {
				return a.enter(d, r, args, spread)
			}
			return a.foreign(e, f, r, args)
		}
		if f, ok := info.ObjectOf(x.Sel).(*types.Func); ok && info.Selections[x] == nil {
			if d := a.p.funcs[f.Origin()]; d != nil {
				return a.enter(d, nil, args, spread)
			}
			return a.foreign(e, f, nil, args)
		}
	}
	// a function value
	sig, ok := a.typeOf(fun).Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var rs []*aNode
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, a.node(sig.Results().At(i).Type()))
	}
	a.later(a.expr(fun), func(o *aObj) {
		var out []*aNode
		switch {
		case o.fn != nil:
			out = a.enter(o.fn, o.recv, args, spread)
		case o.lit != nil && o.run == a.run:
			ls := o.litPkg.info.TypeOf(o.lit).(*types.Signature)
			a.bind(ls, args, spread)
			out = a.resultsOf(a.litKey(o.lit), ls)
		}
		for i := range rs {
			if i < len(out) {
				a.flow(out[i], rs[i])
			}
		}
	})
	return rs
}

// dynamic is a call through an interface
func (a *aliases) dynamic(e *ast.CallExpr, it *types.Interface, f *types.Func, recv *aNode, args []*aNode, spread bool) []*aNode {
	sig := f.Type().(*types.Signature)
	var rs []*aNode
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, a.node(sig.Results().At(i).Type()))
	}
	for _, c := range a.concr {
		for _, t := range []types.Type{c, types.NewPointer(c)} {
			if !types.Implements(t, it) {
				continue
			}
			m := types.NewMethodSet(t).Lookup(f.Pkg(), f.Name())
			if m == nil {
				continue
			}
			d := a.p.funcs[m.Obj().(*types.Func)]
			if d == nil {
				continue
			}
			for i, r := range a.enter(d, recv, args, spread) {
				if i < len(rs) {
					a.flow(r, rs[i])
				}
			}
			break
		}
	}
	return rs
}

// methods of the dependencies that leave their receiver as it is
var readOnly = map[string]bool{"Equal": true, "IsZero": true, "IsOne": true, "Cmp": true, "String": true, "Bytes": true, "Marshal": true, "Bit": true,
	"BitLen": true, "ToBigInt": true, "ToBigIntRegular": true, "Legendre": true, "LexicographicallyLargest": true, "Sign": true, "Int64": true,
	"Uint64": true, "IsInt64": true, "IsUint64": true, "Text": true, "Error": true, "Len": true, "ToRegular": true, "Name": true, "Format": true}

// foreign is a call of a function of the dependencies: methods with a pointer receiver write it, sorting writes its
// argument, nothing else writes what it is given; results may refer to the arguments
func (a *aliases) foreign(e *ast.CallExpr, f *types.Func, recv *aNode, args []*aNode) []*aNode {
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil && isPtr(r.Type()) && !readOnly[f.Name()] {
		a.write(recv, e.Pos(), "the call of "+f.Name())
	} else {
		a.read(recv)
	}
	for i, x := range args {
		a.read(x)
		if f.Pkg() != nil && i == 0 {
			switch f.Pkg().Path() {
			case "sort", "slices", "encoding/binary", "crypto/rand", "math/rand":
				a.write(x, e.Pos(), "the call of "+f.Name())
			}
		}
	}
	var rs []*aNode
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if !a.hasRefs(t) {
			rs = append(rs, nil)
			continue
		}
		n := a.node(t)
		a.flow(recv, n)
		if sig.Recv() == nil {
			for _, x := range args {
				a.flow(x, n)
			}
		}
		rs = append(rs, n)
	}
	return rs
}

func (a *aliases) builtin(name string, e *ast.CallExpr) *aNode {
	switch name {
	case "make", "new":
		for _, x := range e.Args[1:] {
			a.expr(x)
		}
		t := a.typeOf(e)
		var elem types.Type
		switch u := t.Underlying().(type) {
		case *types.Slice:
			elem = u.Elem()
		case *types.Pointer:
			elem = u.Elem()
		case *types.Chan:
			elem = u.Elem()
		}
		return a.points(a.object(name, elem), t)
	case "append":
		t := a.typeOf(e)
		first := a.expr(e.Args[0])
		var elem types.Type
		if s, ok := t.Underlying().(*types.Slice); ok {
			elem = s.Elem()
		}
		o := a.object("append", elem)
		n := a.points(o, t)
		a.flow(first, n)
		if len(e.Args) > 1 {
			a.write(first, e.Pos(), "appending")
		}
		a.flow(a.load(first, elem), o.content)
		for _, x := range e.Args[1:] {
			v := a.expr(x)
			if e.Ellipsis.IsValid() {
				v = a.load(v, elem)
			}
			a.flow(v, o.content)
			a.store(first, v)
		}
		return n
	case "copy":
		d := a.expr(e.Args[0])
		s := a.expr(e.Args[1])
		a.write(d, e.Pos(), "copying")
		a.store(d, a.load(s, nil))
		return nil
	case "clear", "delete":
		a.exprs(e.Args)
		a.write(a.expr(e.Args[0]), e.Pos(), name)
		return nil
	case "len", "cap":
		return nil
	}
	a.exprs(e.Args)
	return nil
}

func (a *aliases) assign(l ast.Expr, v *aNode, what string) {
	l = ast.Unparen(l)
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		o, ok := a.pkg.info.ObjectOf(id).(*types.Var)
		if !ok {
			return
		}
		a.flow(v, a.varNode(o))
		if a.isGlobal(o) {
			a.write(a.points(a.varObj(o), nil), l.Pos(), what)
		}
		return
	}
	p := a.addr(l)
	a.write(p, l.Pos(), what)
	a.store(p, v)
}

func (a *aliases) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case nil:
	case *ast.BlockStmt:
		for _, x := range s.List {
			a.stmt(x)
		}
	case *ast.ExprStmt:
		a.expr(s.X)
	case *ast.SendStmt:
		c, v := a.expr(s.Chan), a.expr(s.Value)
		a.store(c, v)
	case *ast.IncDecStmt:
		a.assign(s.X, nil, "an increment")
	case *ast.AssignStmt:
		if len(s.Rhs) == len(s.Lhs) {
			var vs []*aNode
			for _, x := range s.Rhs {
				vs = append(vs, a.expr(x))
			}
			for i, l := range s.Lhs {
				a.assign(l, vs[i], "an assignment")
			}
			return
		}
		var vs []*aNode
		if c, ok := ast.Unparen(s.Rhs[0]).(*ast.CallExpr); ok {
			vs = a.calls(c)
		} else {
			vs = []*aNode{a.expr(s.Rhs[0])}
		}
		for i, l := range s.Lhs {
			var v *aNode
			if i < len(vs) {
				v = vs[i]
			}
			a.assign(l, v, "an assignment")
		}
	case *ast.DeclStmt:
		g, ok := s.Decl.(*ast.GenDecl)
		if !ok {
			return
		}
		for _, sp := range g.Specs {
			if v, ok := sp.(*ast.ValueSpec); ok {
				a.valueSpec(v)
			}
		}
	case *ast.GoStmt:
		a.call(s.Call)
	case *ast.DeferStmt:
		a.call(s.Call)
	case *ast.ReturnStmt:
		if len(s.Results) == 1 && len(a.rets) > 1 {
			if c, ok := ast.Unparen(s.Results[0]).(*ast.CallExpr); ok {
				for i, v := range a.calls(c) {
					if i < len(a.rets) {
						a.flow(v, a.rets[i])
					}
				}
				return
			}
		}
		for i, x := range s.Results {
			v := a.expr(x)
			if i < len(a.rets) {
				a.flow(v, a.rets[i])
			}
		}
	case *ast.IfStmt:
		a.stmt(s.Init)
		a.expr(s.Cond)
		a.stmt(s.Body)
		if s.Else != nil {
			a.stmt(s.Else)
		}
	case *ast.ForStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		a.expr(s.Cond)
		if s.Post != nil {
			a.stmt(s.Post)
		}
		a.stmt(s.Body)
	case *ast.RangeStmt:
		t := a.typeOf(s.X)
		var v *aNode
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Chan:
			x := a.expr(s.X)
			if s.Value != nil || isChan(u) || isMapT(u) {
				v = a.load(x, nil)
			}
		case *types.Pointer:
			v = a.load(a.expr(s.X), nil)
		default:
			v = a.expr(s.X)
		}
		if s.Key != nil {
			k := v
			if !isChan(t.Underlying()) && !isMapT(t.Underlying()) {
				k = nil
			}
			a.assign(s.Key, k, "a range clause")
		}
		if s.Value != nil {
			a.assign(s.Value, v, "a range clause")
		}
		a.stmt(s.Body)
	case *ast.SwitchStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		a.expr(s.Tag)
		a.stmt(s.Body)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		var x *aNode
		switch y := s.Assign.(type) {
		case *ast.ExprStmt:
			x = a.expr(y.X)
		case *ast.AssignStmt:
			x = a.expr(y.Rhs[0])
		}
		for _, c := range s.Body.List {
			if o := a.pkg.info.Implicits[c]; o != nil {
				a.flow(x, a.varNode(o))
			}
		}
		a.stmt(s.Body)
	case *ast.SelectStmt:
		a.stmt(s.Body)
	case *ast.CaseClause:
		a.exprs(s.List)
		for _, x := range s.Body {
			a.stmt(x)
		}
	case *ast.CommClause:
		if s.Comm != nil {
			a.stmt(s.Comm)
		}
		for _, x := range s.Body {
			a.stmt(x)
		}
	case *ast.LabeledStmt:
		a.stmt(s.Stmt)
	}
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
func isMapT(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

func (a *aliases) valueSpec(v *ast.ValueSpec) {
	if len(v.Values) == 1 && len(v.Names) > 1 {
		if c, ok := ast.Unparen(v.Values[0]).(*ast.CallExpr); ok {
			for i, x := range a.calls(c) {
				a.assign(v.Names[i], x, "a declaration")
			}
			return
		}
	}
	for i, n := range v.Names {
		if i < len(v.Values) {
			a.assign(n, a.expr(v.Values[i]), "a declaration")
		}
	}
}

func (a *aliases) drain() {
	for len(a.queue) > 0 {
		f := a.queue[len(a.queue)-1]
		a.queue = a.queue[:len(a.queue)-1]
		f()
	}
}

// ownPackages are the packages of the repository, dependencies first
func (p *Program) ownPackages() []*Package {
	var l []*Package
	seen := map[string]bool{}
	var visit func(pk *types.Package)
	visit = func(pk *types.Package) {
		if seen[pk.Path()] {
			return
		}
		seen[pk.Path()] = true
		imps := append([]*types.Package{}, pk.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if x := p.pkgs[pk.Path()]; x != nil && !strings.HasPrefix(pk.Path(), "verifspec/") {
			l = append(l, x)
		}
	}
	var ps []string
	for path := range p.pkgs {
		ps = append(ps, path)
	}
	sort.Strings(ps)
	for _, path := range ps {
		visit(p.pkgs[path].tpkg)
	}
	return l
}

// initOnly are the functions that only run while the packages initialise (or never)
func initOnly(p *Program, pkgs []*Package) map[*types.Func]bool {
	only := map[*types.Func]bool{}
	refs := map[*types.Func][]*types.Func{} // function -> what mentions it
	for _, pk := range pkgs {
		for _, f := range pk.files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				me := pk.info.Defs[fd.Name].(*types.Func)
				if fd.Name.Name == "init" || !fd.Name.IsExported() && fd.Recv == nil && fd.Name.Name != "main" {
					only[me] = true
				}
				ast.Inspect(fd, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if f, ok := pk.info.Uses[id].(*types.Func); ok {
							refs[f] = append(refs[f], me)
						}
					}
					return true
				})
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range only {
			for _, by := range refs[f] {
				if by != f && !only[by] {
					delete(only, f)
					changed = true
					break
				}
			}
		}
	}
	return only
}

func constantsRule(p *Program, r *Result) {
	a := &aliases{p: p, vars: map[aVar]*aNode{}, objs: map[aVar]*aObj{}, results: map[string]*aNode{}, fnObjs: map[*types.Func]*aObj{},
		done: map[string]bool{}, unitOf: map[*FuncDecl]*aUnit{}}
	pkgs := p.ownPackages()
	for _, pk := range pkgs {
		s := pk.tpkg.Scope()
		for _, n := range s.Names() {
			switch o := s.Lookup(n).(type) {
			case *types.Var:
				a.globals = append(a.globals, o)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && !types.IsInterface(nt) && nt.TypeParams().Len() == 0 {
					a.concr = append(a.concr, nt)
				}
			}
		}
	}
	// initialisation, in order
	var units []*aUnit
	for _, pk := range pkgs {
		for _, in := range pk.info.InitOrder {
			a.pkg, a.fn = pk, pk.path+" (variables)"
			u := &aUnit{pos: in.Rhs.Pos()}
			a.unit = u
			vs := []*aNode{nil}
			if c, ok := ast.Unparen(in.Rhs).(*ast.CallExpr); ok && len(in.Lhs) > 1 {
				vs = a.calls(c)
			} else {
				vs[0] = a.expr(in.Rhs)
			}
			for i, v := range in.Lhs {
				if v.Name() == "_" {
					continue
				}
				if i < len(vs) {
					a.flow(vs[i], a.varNode(v))
				}
				a.write(a.points(a.varObj(v), nil), in.Rhs.Pos(), "a declaration")
			}
			units = append(units, u)
		}
		for _, f := range pk.files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Name.Name != "init" || fd.Recv != nil || fd.Body == nil {
					continue
				}
				for _, s := range fd.Body.List {
					a.pkg, a.fn = pk, pk.path+".init"
					u := &aUnit{pos: s.Pos()}
					a.unit = u
					a.stmt(s)
					units = append(units, u)
				}
			}
		}
	}
	a.unit = nil
	a.drain()
	// everything after
	a.run = true
	only := initOnly(p, pkgs)
	n := 0
	for _, pk := range pkgs {
		for _, f := range pk.files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				o := pk.info.Defs[fd.Name].(*types.Func)
				if only[o] || p.funcs[o] == nil {
					continue
				}
				n++
				r.Reached = append(r.Reached, funcKey(o))
				a.fnBody(p.funcs[o])
				// a method called, from outside, on an exported variable
				if fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 || !fd.Name.IsExported() {
					continue
				}
				v, ok := pk.info.Defs[fd.Recv.List[0].Names[0]].(*types.Var)
				for _, g := range a.globals {
					if !ok || !g.Exported() {
						continue
					}
					if types.Identical(v.Type(), types.NewPointer(g.Type())) {
						a.add(a.varNode(v), a.varObj(g))
					} else if types.Identical(v.Type(), g.Type()) {
						a.flow(a.varNode(g), a.varNode(v))
					}
				}
			}
		}
	}
	a.drain()
	// what the package variables reach
	owner := map[*aObj][]*types.Var{}
	for _, g := range a.globals {
		seen := map[*aObj]bool{}
		var reach func(o *aObj)
		reach = func(o *aObj) {
			if o == nil || seen[o] || o.fn != nil || o.lit != nil {
				return
			}
			seen[o] = true
			owner[o] = append(owner[o], g)
			for x := range o.content.pts {
				reach(x)
			}
		}
		a.run = false
		reach(a.varObj(g))
	}
	reported := map[string]bool{}
	for _, w := range a.writes {
		for o := range w.n.pts {
			for _, g := range owner[o] {
				key := fmt.Sprintf("constants/%s/%s", w.fn, g.Name())
				if !reported[key] {
					reported[key] = true
					r.fail(key, "%s (%s): %s may modify the package variable %s.%s after the initialisation", p.pos(w.pos), w.fn, w.what, g.Pkg().Name(), g.Name())
				}
			}
		}
	}
	// an exported function that makes what it returns does not return the constants instead
	for _, pk := range pkgs {
		for _, f := range pk.files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || !fd.Name.IsExported() {
					continue
				}
				o := pk.info.Defs[fd.Name].(*types.Func)
				a.run = true
				for i, n := range a.resultsOf(a.fnKey(p.funcs[o]), o.Type().(*types.Signature)) {
					var g *types.Var
					mine := false
					for x := range n.pts {
						if l := owner[x]; len(l) > 0 {
							g = l[0]
						} else if x.fn == nil && x.lit == nil {
							mine = true
						}
					}
					if g != nil && mine {
						r.fail(fmt.Sprintf("constants/result/%s", funcKey(o)), "%s: result %d of %s refers to memory of its own or to the package variable %s.%s, which its caller may then modify", p.pos(fd.Pos()), i, funcKey(o), g.Pkg().Name(), g.Name())
					}
				}
			}
		}
	}
	a.initOrder(r, units, owner)
	r.Sites = a.sites
	r.Calls = n
	for _, g := range a.globals {
		r.Decided = append(r.Decided, g.Pkg().Name()+"."+g.Name())
	}
	if len(a.globals) < 3 {
		r.fail("constants/floor", "only %d package variables found", len(a.globals))
	}
}

// initOrder: nothing is derived, during the initialisation, from a variable that is only completed later
func (a *aliases) initOrder(r *Result, units []*aUnit, owner map[*aObj][]*types.Var) {
	type rw struct{ r, w map[*types.Var]bool }
	var all []rw
	for _, u := range units {
		x := rw{map[*types.Var]bool{}, map[*types.Var]bool{}}
		seen := map[*aUnit]bool{}
		var visit func(u *aUnit)
		visit = func(u *aUnit) {
			if u == nil || seen[u] {
				return
			}
			seen[u] = true
			for _, e := range u.reads {
				for o := range e.n.pts {
					for _, g := range owner[o] {
						x.r[g] = true
					}
				}
			}
			for _, e := range u.writes {
				for o := range e.n.pts {
					for _, g := range owner[o] {
						x.w[g] = true
					}
				}
			}
			for _, d := range u.calls {
				visit(a.unitOf[d])
			}
		}
		visit(u)
		all = append(all, x)
	}
	for i, x := range all {
		if len(x.w) == 0 {
			continue
		}
		for j := i + 1; j < len(all); j++ {
			for g := range all[j].w {
				if x.r[g] && !x.w[g] {
					r.fail("constants/order/"+g.Name(), "%s: %s.%s is used during the initialisation before %s completes it", a.p.pos(units[i].pos), g.Pkg().Name(), g.Name(), a.p.pos(units[j].pos))
				}
			}
		}
	}
}

func init() {
	rules["P21"] = &Rule{name: "constants", min: 200, run: constantsRule,
		what: "Points-to analysis of the whole program: no statement that runs after the initialisation of the packages writes memory reachable from a package variable, and during the initialisation nothing is derived from a variable completed later."}
}
