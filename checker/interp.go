package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// ---------------------------------------------------------------------------
// Abstract interpretation of the typed syntax. Every statement is visited a bounded number of times:
// conditionals are joined (no path is enumerated) and loops are summarised (loop.go).

type Frame struct {
	vars    map[types.Object]*Node
	pkg     *Package
	fn      string
	sig     *types.Signature
	named   []types.Object
	defers  []deferred
	callKey string
}

type deferred struct {
	guard *Node
	run   func(st *State)
}

type Ret struct {
	g    *Node
	st   *State
	vals []Val
}

type Jump struct {
	g     *Node
	st    *State
	label string
}

type Out struct {
	st    *State
	rets  []Ret
	brks  []Jump
	conts []Jump
}

type Closure struct {
	lit  *ast.FuncLit
	pkg  *Package
	caps []types.Object
	key  string
}

type Interp struct {
	split      bool // read loops in parts, see split.go
	splittable bool

	prog       *Program
	objSeq     int
	objs       map[string]*Object
	loops      []*Node
	initial    map[string]*Node
	quiet      int
	deepAccess func(ref, ln *Node)
	ifaceTypes map[string]types.Type
	closures   map[string]*Closure
	path       []*Node
	frame      *Frame
	depth      int
	opaque     map[string]bool
	opaqueAs   map[string]string // functions not entered
	only       map[string]bool   // exceptions to opaque
	events     []Event
	goCtx      []*GoRoutine
	anyGo      bool // a goroutine was started
	chans      []*Object
	chanIDs    map[string]bool
	callStack  []string
	seen       map[string]int // functions entered
	nCalls     int
	hints      map[string]map[string]bool
	assumes    []*Node
	loopCount  int
	inLoopDisc int
	curPos     token.Pos
	methodSet  map[string][]*FuncDecl
	budget     int
	loopHints  map[string]*loopHint
	findings   []Finding
	aliases    map[string][]*Node
	use        map[string]*FuncDecl
	bounds     bool
	nBounds    int
}

func newInterp(p *Program) *Interp {
	return &Interp{prog: p, objs: map[string]*Object{}, initial: map[string]*Node{}, ifaceTypes: map[string]types.Type{},
		closures: map[string]*Closure{}, opaque: map[string]bool{}, opaqueAs: map[string]string{}, only: map[string]bool{}, seen: map[string]int{}, hints: map[string]map[string]bool{}, aliases: map[string][]*Node{}, use: map[string]*FuncDecl{}, budget: 400000}
}

const assertCell = "$assert|"
const panicCell = "$panic|"

func newState() *State {
	return &State{map[string]*Node{assertCell: NTrue, panicCell: NFalse}}
}

func (in *Interp) where() string { return in.prog.pos(in.curPos) }

func (in *Interp) fail(format string, a ...interface{}) {
	fail("%s: %s", in.where(), fmt.Sprintf(format, a...))
}

// under runs f on the branch where c holds
func (in *Interp) under(c *Node, f func()) {
	if c == NTrue {
		f()
		return
	}
	in.path = append(in.path, c)
	defer func() { in.path = in.path[:len(in.path)-1] }()
	withFacts([]*Node{c}, f)
}

func (in *Interp) pathCond() *Node { return And(in.path...) }

// ---------------------------------------------------------------------------
// Variables

func (in *Interp) objID(name string, pos token.Pos) string {
	return fmt.Sprintf("%s:%s#%d", in.frame.callKey, name, int(pos))
}

func (in *Interp) fixedObject(id, name string, elem types.Type, backing bool) *Object {
	o := &Object{id: id, name: name, elem: elem, backing: backing, pos: in.where()}
	o.args = append([]*Node{}, in.loops...)
	in.objs[id] = o
	return o
}

func (in *Interp) declare(st *State, obj types.Object, v Val) {
	if obj == nil || obj.Name() == "_" {
		return
	}
	o := in.fixedObject(in.objID(obj.Name(), obj.Pos()), obj.Name(), obj.Type(), false)
	o.isVar = true
	in.initObject(st, o, v)
	in.frame.vars[obj] = o.addr()
}

func (in *Interp) varAddr(st *State, obj types.Object) *Node {
	if a, ok := in.frame.vars[obj]; ok {
		return a
	}
	if v, ok := obj.(*types.Var); ok && v.Parent() == v.Pkg().Scope() {
		return in.globalAddr(st, v)
	}
	in.fail("unknown variable %s", obj.Name())
	return nil
}

func (in *Interp) globalAddr(st *State, v *types.Var) *Node {
	id := "global:" + strings.TrimPrefix(v.Pkg().Path(), modPath+"/") + "." + v.Name()
	if o, ok := in.objs[id]; ok {
		return o.addr()
	}
	o := in.rootObject(id, v.Type(), false, 0)
	val := in.symbolic(st, v.Type(), id, "", nil, symMaker(id))
	for i, l := range leaves(v.Type()) {
		in.initial[o.id+"|"+l.path] = val.l[i]
		st.cells[o.id+"|"+l.path] = val.l[i]
	}
	return o.addr()
}

// symMaker builds the scalars of symbolic inputs
func symMaker(name string) func(path string, s Sort, idx []*Node) *Node {
	return func(path string, s Sort, idx []*Node) *Node {
		n := name + path
		nat := strings.HasSuffix(path, "#len")
		if len(idx) == 0 {
			var info *SymInfo
			if nat {
				info = &SymInfo{lo: IntC(0), nat: true}
			}
			return namedSym(n, s, info)
		}
		if nat {
			natArrays[n] = true
		}
		return ApplyAll(arrSym(n, Sig{len(idx), s}), idx...)
	}
}

// ---------------------------------------------------------------------------
// Statements

func (in *Interp) block(st *State, list []ast.Stmt) Out {
	out := Out{st: st}
	for i, s := range list {
		if out.st == nil {
			break
		}
		o := in.stmt(out.st, s)
		if len(o.rets)+len(o.brks)+len(o.conts) == 0 {
			out.st = o.st
			continue
		}
		out.rets = append(out.rets, o.rets...)
		out.brks = append(out.brks, o.brks...)
		out.conts = append(out.conts, o.conts...)
		out.st = o.st
		if o.st == nil {
			break
		}
		if i+1 < len(list) {
			left := notLeft(o)
			for _, x := range o.rets {
				otherwise(o.st, x.g)
			}
			var r Out
			in.under(left, func() { r = in.block(o.st, list[i+1:]) })
			if len(o.brks)+len(o.conts) > 0 {
				r = guarded(r, notLeft(Out{brks: o.brks, conts: o.conts}))
			}
			out.rets = append(out.rets, r.rets...)
			out.brks = append(out.brks, r.brks...)
			out.conts = append(out.conts, r.conts...)
			out.st = r.st
		}
		return out
	}
	return out
}

// otherwise keeps, of the choices made on g, what remains when it does not hold
func otherwise(st *State, g *Node) {
	for c, x := range st.cells {
		for x.kind == KIte && (x.args[0] == g || x.args[0] == Not(g)) {
			if x.args[0] == g {
				x = x.args[2]
			} else {
				x = x.args[1]
			}
			st.cells[c] = x
		}
	}
}

func notLeft(o Out) *Node {
	var l []*Node
	for _, r := range o.rets {
		l = append(l, Not(r.g))
	}
	for _, r := range o.brks {
		l = append(l, Not(r.g))
	}
	for _, r := range o.conts {
		l = append(l, Not(r.g))
	}
	return And(l...)
}

func guarded(o Out, c *Node) Out {
	for i := range o.rets {
		o.rets[i].g = And(c, o.rets[i].g)
	}
	for i := range o.brks {
		o.brks[i].g = And(c, o.brks[i].g)
	}
	for i := range o.conts {
		o.conts[i].g = And(c, o.conts[i].g)
	}
	return o
}

func joinOuts(c *Node, a, b Out) Out {
	a, b = guarded(a, c), guarded(b, Not(c))
	r := Out{}
	r.rets = append(append(r.rets, a.rets...), b.rets...)
	r.brks = append(append(r.brks, a.brks...), b.brks...)
	r.conts = append(append(r.conts, a.conts...), b.conts...)
	r.st = mergeStates(c, a.st, b.st)
	return r
}

func (in *Interp) stmt(st *State, s ast.Stmt) Out {
	in.budget--
	if in.budget < 0 {
		in.fail("analysis budget exceeded")
	}
	old := in.curPos
	in.curPos = s.Pos()
	defer func() { in.curPos = old }()
	switch s := s.(type) {
	case *ast.ExprStmt:
		in.exprStmt(st, s.X)
		return in.afterCall(st)
	case *ast.AssignStmt:
		in.assign(st, s)
		return in.afterCall(st)
	case *ast.IncDecStmt:
		a := in.lvalue(st, s.X)
		v := a.load()
		d := int64(1)
		if s.Tok == token.DEC {
			d = -1
		}
		a.store(scalar(v.t, Add(v.node(), Const(v.node().sort, big.NewRat(d, 1)))))
		return Out{st: st}
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return Out{st: st}
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var vals []Val
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				vals = in.evalMulti(st, vs.Values[0])
			} else {
				for _, e := range vs.Values {
					vals = append(vals, in.eval(st, e))
				}
			}
			for i, id := range vs.Names {
				obj := in.frame.pkg.info.Defs[id]
				if obj == nil {
					continue
				}
				if len(vals) > 0 {
					in.declare(st, obj, in.convert(st, vals[i], obj.Type()))
				} else {
					in.declare(st, obj, zeroVal(obj.Type()))
				}
			}
		}
		return in.afterCall(st)
	case *ast.BlockStmt:
		return in.block(st, s.List)
	case *ast.IfStmt:
		if s.Init != nil {
			o := in.stmt(st, s.Init)
			st = o.st
		}
		c := in.eval(st, s.Cond).node()
		if c == NTrue {
			return in.block(st, s.Body.List)
		}
		if c == NFalse {
			if s.Else != nil {
				return in.stmt(st, s.Else)
			}
			return Out{st: st}
		}
		var a, b Out
		sa, sb := st.clone(), st.clone()
		in.under(c, func() { a = in.block(sa, s.Body.List) })
		b = Out{st: sb}
		if s.Else != nil {
			in.under(Not(c), func() { b = in.stmt(sb, s.Else) })
		}
		return joinOuts(c, a, b)
	case *ast.SwitchStmt:
		return in.switchStmt(st, s)
	case *ast.ReturnStmt:
		return in.returnStmt(st, s)
	case *ast.ForStmt:
		return in.forStmt(st, s, "")
	case *ast.RangeStmt:
		return in.rangeStmt(st, s, "")
	case *ast.LabeledStmt:
		switch l := s.Stmt.(type) {
		case *ast.ForStmt:
			return in.forStmt(st, l, s.Label.Name)
		case *ast.RangeStmt:
			return in.rangeStmt(st, l, s.Label.Name)
		}
		return in.stmt(st, s.Stmt)
	case *ast.BranchStmt:
		lab := ""
		if s.Label != nil {
			lab = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return Out{brks: []Jump{{NTrue, st, lab}}}
		case token.CONTINUE:
			return Out{conts: []Jump{{NTrue, st, lab}}}
		}
		in.fail("%s is not supported", s.Tok)
	case *ast.GoStmt:
		in.goStmt(st, s)
		return Out{st: st}
	case *ast.DeferStmt:
		in.deferStmt(st, s)
		return Out{st: st}
	case *ast.SendStmt:
		ch := in.eval(st, s.Chan)
		v := in.eval(st, s.Value)
		v = in.convert(st, v, ch.t.Underlying().(*types.Chan).Elem())
		in.chanSend(st, ch, v)
		return Out{st: st}
	case *ast.EmptyStmt:
		return Out{st: st}
	}
	in.fail("statement %T is not supported", s)
	return Out{}
}

// afterCall stops after a call that certainly panicked
func (in *Interp) afterCall(st *State) Out {
	if p := st.cells[panicCell]; p == NTrue {
		return in.panicOut(st)
	}
	return Out{st: st}
}

func (in *Interp) panicOut(st *State) Out {
	st.cells[panicCell] = NTrue
	return Out{rets: []Ret{{NTrue, st, in.undefResults()}}}
}

func (in *Interp) undefResults() []Val {
	var vals []Val
	r := in.frame.sig.Results()
	for i := 0; i < r.Len(); i++ {
		v := Val{t: r.At(i).Type()}
		for _, l := range leaves(v.t) {
			v.l = append(v.l, undefOf(l))
		}
		vals = append(vals, v)
	}
	return vals
}

func (in *Interp) exprStmt(st *State, e ast.Expr) {
	switch x := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		in.evalMulti(st, x)
	case *ast.UnaryExpr:
		in.eval(st, x)
	default:
		in.fail("expression statement %T", e)
	}
}

func (in *Interp) switchStmt(st *State, s *ast.SwitchStmt) Out {
	if s.Init != nil {
		st = in.stmt(st, s.Init).st
	}
	var tag *Val
	if s.Tag != nil {
		v := in.eval(st, s.Tag)
		tag = &v
	}
	var clauses []*ast.CaseClause
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		for _, b := range cc.Body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				in.fail("fallthrough")
			}
		}
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	var rec func(st *State, i int) Out
	rec = func(st *State, i int) Out {
		if i == len(clauses) {
			if def == nil {
				return Out{st: st}
			}
			return in.block(st, def.Body)
		}
		var cs []*Node
		for _, e := range clauses[i].List {
			v := in.eval(st, e)
			if tag == nil {
				cs = append(cs, v.node())
			} else {
				cs = append(cs, in.equalVals(st, *tag, v))
			}
		}
		c := Or(cs...)
		if c == NTrue {
			return in.block(st, clauses[i].Body)
		}
		if c == NFalse {
			return rec(st, i+1)
		}
		var a, b Out
		sa, sb := st.clone(), st.clone()
		in.under(c, func() { a = in.block(sa, clauses[i].Body) })
		in.under(Not(c), func() { b = rec(sb, i+1) })
		return joinOuts(c, a, b)
	}
	o := rec(st, 0)
	// break leaves the switch
	var keep []Jump
	for _, b := range o.brks {
		if b.label != "" {
			keep = append(keep, b)
			continue
		}
		o.st = mergeStates(b.g, b.st, o.st)
	}
	o.brks = keep
	return o
}

func (in *Interp) returnStmt(st *State, s *ast.ReturnStmt) Out {
	res := in.frame.sig.Results()
	var vals []Val
	if len(s.Results) == 0 {
		for _, o := range in.frame.named {
			vals = append(vals, in.load(st, in.frame.vars[o], o.Type()))
		}
		return Out{rets: []Ret{{NTrue, st, vals}}}
	}
	if len(s.Results) == 1 && res.Len() > 1 {
		vals = in.evalMulti(st, s.Results[0])
	} else {
		for _, e := range s.Results {
			vals = append(vals, in.eval(st, e))
		}
	}
	for i := range vals {
		vals[i] = in.convert(st, vals[i], res.At(i).Type())
	}
	for i, o := range in.frame.named {
		in.quiet++
		in.store(st, in.frame.vars[o], vals[i])
		in.quiet--
	}
	return Out{rets: []Ret{{NTrue, st, vals}}}
}

// ---------------------------------------------------------------------------
// Assignments

type place struct {
	in    *Interp
	st    *State
	t     types.Type
	addr  *Node
	blank bool
	// maps
	m   *Node
	key *Node
}

func (p place) load() Val {
	if p.m != nil {
		v, _ := p.in.mapGet(p.st, p.m, p.key, p.t)
		return v
	}
	return p.in.load(p.st, p.addr, p.t)
}

func (p place) store(v Val) {
	if p.blank {
		return
	}
	v = p.in.convert(p.st, v, p.t)
	if p.m != nil {
		p.in.mapSet(p.st, p.m, p.key, v)
		return
	}
	p.in.store(p.st, p.addr, v)
}

func (in *Interp) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.frame.pkg.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.frame.pkg.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	in.fail("no type for %T", e)
	return nil
}

func (in *Interp) lvalue(st *State, e ast.Expr) place {
	e = ast.Unparen(e)
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return place{in: in, st: st, blank: true}
	}
	if ix, ok := e.(*ast.IndexExpr); ok {
		if mt, ok := in.typeOf(ix.X).Underlying().(*types.Map); ok {
			m := in.eval(st, ix.X).node()
			k := in.convert(st, in.eval(st, ix.Index), mt.Key())
			return place{in: in, st: st, t: mt.Elem(), m: m, key: k.node()}
		}
	}
	return place{in: in, st: st, t: in.typeOf(e), addr: in.addrOf(st, e)}
}

func (in *Interp) assign(st *State, s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		p := in.lvalue(st, s.Lhs[0])
		x := p.load()
		y := in.eval(st, s.Rhs[0])
		p.store(in.binary(st, assignOp(s.Tok), x, y, x.t))
		return
	}
	var vals []Val
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		vals = in.evalMulti(st, s.Rhs[0])
	} else {
		// places are evaluated first
		if s.Tok == token.ASSIGN && len(s.Lhs) > 1 {
			var ps []place
			for _, l := range s.Lhs {
				ps = append(ps, in.lvalue(st, l))
			}
			for _, e := range s.Rhs {
				vals = append(vals, in.eval(st, e))
			}
			for i := range ps {
				ps[i].store(vals[i])
			}
			return
		}
		for _, e := range s.Rhs {
			vals = append(vals, in.eval(st, e))
		}
	}
	for i, l := range s.Lhs {
		if s.Tok == token.DEFINE {
			if id, ok := l.(*ast.Ident); ok {
				if obj := in.frame.pkg.info.Defs[id]; obj != nil {
					in.declare(st, obj, in.convert(st, vals[i], obj.Type()))
					continue
				}
			}
		}
		in.lvalue(st, l).store(vals[i])
	}
}

func assignOp(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	case token.REM_ASSIGN:
		return token.REM
	case token.SHL_ASSIGN:
		return token.SHL
	case token.SHR_ASSIGN:
		return token.SHR
	case token.AND_ASSIGN:
		return token.AND
	case token.OR_ASSIGN:
		return token.OR
	case token.XOR_ASSIGN:
		return token.XOR
	}
	fail("assignment operator %s", t)
	return 0
}

// ---------------------------------------------------------------------------
// Addresses

func (in *Interp) addrOf(st *State, e ast.Expr) *Node {
	e = ast.Unparen(e)
	info := in.frame.pkg.info
	switch e := e.(type) {
	case *ast.Ident:
		obj := info.ObjectOf(e)
		return in.varAddr(st, obj)
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[e]; ok {
			if sel.Kind() != types.FieldVal {
				in.fail("address of a method")
			}
			t := in.typeOf(e.X)
			var a *Node
			if p, ok := t.Underlying().(*types.Pointer); ok {
				a = in.eval(st, e.X).node()
				t = p.Elem()
			} else {
				a = in.addrOf(st, e.X)
			}
			for _, i := range sel.Index() {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					a = in.load(st, a, t).node()
					t = p.Elem()
				}
				f := t.Underlying().(*types.Struct).Field(i)
				a = addrField(a, f.Name())
				t = f.Type()
			}
			return a
		}
		// package variable
		return in.varAddr(st, info.ObjectOf(e.Sel))
	case *ast.IndexExpr:
		t := in.typeOf(e.X)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			v := in.eval(st, e.X)
			i := in.eval(st, e.Index).node()
			in.bound(And(Le(IntC(0), i), Lt(i, v.l[2])))
			if v.l[0] == zeroOf(SRef) {
				return App("undef", SRef)
			}
			return addrIndex(v.l[0], Add(v.l[1], i), false)
		case *types.Array:
			a := in.addrOf(st, e.X)
			i := in.eval(st, e.Index).node()
			in.bound(And(Le(IntC(0), i), Lt(i, IntC(u.Len()))))
			return addrIndex(a, i, true)
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Array); ok {
				return addrIndex(in.eval(st, e.X).node(), in.eval(st, e.Index).node(), true)
			}
		}
		in.fail("address of an index of %v", t)
	case *ast.StarExpr:
		return in.eval(st, e.X).node()
	case *ast.CompositeLit:
		v := in.eval(st, e)
		o := in.fixedObject(in.objID("lit", e.Pos()), "lit", v.t, false)
		in.initObject(st, o, v)
		return o.addr()
	}
	// a value that is not addressable: put it in a temporary
	v := in.eval(st, e)
	o := in.fixedObject(in.objID("tmp", e.Pos()), "tmp", v.t, false)
	o.isVar = true
	in.initObject(st, o, v)
	return o.addr()
}

func (in *Interp) addressable(e ast.Expr) bool {
	tv, ok := in.frame.pkg.info.Types[e]
	return ok && tv.Addressable()
}

// ---------------------------------------------------------------------------
// Expressions

func constVal(t types.Type, c constant.Value) (Val, bool) {
	switch c.Kind() {
	case constant.Bool:
		if constant.BoolVal(c) {
			return scalar(t, NTrue), true
		}
		return scalar(t, NFalse), true
	case constant.String:
		return scalar(t, App("const:"+constant.StringVal(c), SRef)), true
	case constant.Int:
		i, ok := new(big.Int).SetString(c.ExactString(), 10)
		if !ok {
			return Val{}, false
		}
		return scalar(t, Const(SInt, new(big.Rat).SetInt(i))), true
	}
	return Val{}, false
}

func (in *Interp) eval(st *State, e ast.Expr) Val {
	info := in.frame.pkg.info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0 {
			if v, ok := constVal(tv.Type, tv.Value); ok {
				return v
			}
		}
		in.fail("constant %s", tv.Value)
	}
	if tv, ok := info.Types[e]; ok && tv.IsNil() {
		return scalar(tv.Type, zeroOf(SRef))
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return in.eval(st, e.X)
	case *ast.Ident:
		switch o := info.ObjectOf(e).(type) {
		case *types.Var:
			return in.load(st, in.varAddr(st, o), o.Type())
		case *types.Func:
			return scalar(o.Type(), in.funcNode(o))
		}
		in.fail("identifier %s", e.Name)
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[e]; ok {
			switch sel.Kind() {
			case types.FieldVal:
				if in.addressable(e.X) || isPtr(in.typeOf(e.X)) {
					return in.load(st, in.addrOf(st, e), in.typeOf(e))
				}
				v := in.eval(st, e.X)
				for _, i := range sel.Index() {
					if p, ok := v.t.Underlying().(*types.Pointer); ok {
						v = in.load(st, v.node(), p.Elem())
					}
					v = v.field(i)
				}
				return v
			case types.MethodVal:
				f := sel.Obj().(*types.Func)
				recv := in.receiver(st, e, f)
				return scalar(in.typeOf(e), App("method:"+funcKey(f), SRef, recv.l...))
			}
			in.fail("method expression")
		}
		switch o := info.ObjectOf(e.Sel).(type) {
		case *types.Var:
			return in.load(st, in.varAddr(st, o), o.Type())
		case *types.Func:
			return scalar(o.Type(), in.funcNode(o))
		}
		in.fail("selector %s", e.Sel.Name)
	case *ast.IndexExpr:
		t := in.typeOf(e.X)
		switch u := t.Underlying().(type) {
		case *types.Map:
			m := in.eval(st, e.X).node()
			k := in.convert(st, in.eval(st, e.Index), u.Key())
			v, _ := in.mapGet(st, m, k.node(), u.Elem())
			return v
		case *types.Slice:
			return in.load(st, in.addrOf(st, e), u.Elem())
		case *types.Array:
			if in.addressable(e.X) {
				return in.load(st, in.addrOf(st, e), u.Elem())
			}
			v := in.eval(st, e.X)
			i := in.eval(st, e.Index).node()
			r := Val{t: u.Elem()}
			for _, n := range v.l {
				r.l = append(r.l, Apply(n, i))
			}
			return r
		case *types.Pointer:
			return in.load(st, in.addrOf(st, e), in.typeOf(e))
		}
		in.fail("index of %v", t)
	case *ast.SliceExpr:
		return in.sliceExpr(st, e)
	case *ast.StarExpr:
		return in.load(st, in.eval(st, e.X).node(), in.typeOf(e))
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			return scalar(in.typeOf(e), in.addrOf(st, e.X))
		case token.NOT:
			v := in.eval(st, e.X)
			return scalar(v.t, Not(v.node()))
		case token.SUB:
			v := in.eval(st, e.X)
			return scalar(v.t, Neg(v.node()))
		case token.ADD:
			return in.eval(st, e.X)
		case token.ARROW:
			v, _ := in.chanRecv(st, in.eval(st, e.X))
			return v
		}
		in.fail("operator %s", e.Op)
	case *ast.BinaryExpr:
		return in.binaryExpr(st, e)
	case *ast.CallExpr:
		vs := in.evalMulti(st, e)
		if len(vs) != 1 {
			in.fail("call with %d results used as a value", len(vs))
		}
		return vs[0]
	case *ast.CompositeLit:
		return in.compositeLit(st, e)
	case *ast.FuncLit:
		return in.funcLit(st, e)
	case *ast.TypeAssertExpr:
		v := in.eval(st, e.X)
		return in.unbox(v.node(), in.typeOf(e))
	}
	in.fail("expression %T", e)
	return Val{}
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (in *Interp) funcNode(f *types.Func) *Node { return App("func:"+funcKey(f), SRef) }

func (in *Interp) funcLit(st *State, e *ast.FuncLit) Val {
	var caps []types.Object
	seen := map[types.Object]bool{}
	ast.Inspect(e.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o := in.frame.pkg.info.Uses[id]; o != nil && !seen[o] {
				if _, ok := in.frame.vars[o]; ok {
					seen[o] = true
					caps = append(caps, o)
				}
			}
		}
		return true
	})
	key := fmt.Sprintf("closure:%d", int(e.Pos()))
	var args []*Node
	for _, c := range caps {
		args = append(args, in.frame.vars[c])
	}
	in.closures[key] = &Closure{e, in.frame.pkg, caps, in.frame.callKey}
	return scalar(in.typeOf(e), App(key, SRef, args...))
}

func (in *Interp) sliceExpr(st *State, e *ast.SliceExpr) Val {
	t := in.typeOf(e.X)
	var ref, off, ln, cp *Node
	switch u := t.Underlying().(type) {
	case *types.Slice:
		v := in.eval(st, e.X)
		ref, off, ln, cp = v.l[0], v.l[1], v.l[2], v.l[3]
	case *types.Array:
		a := in.addrOf(st, e.X)
		ref, off = addrPath(a), IntC(0)
		ln = IntC(u.Len())
		cp = ln
	default:
		if p, ok := u.(*types.Pointer); ok {
			ar := p.Elem().Underlying().(*types.Array)
			a := in.eval(st, e.X).node()
			ref, off, ln = addrPath(a), IntC(0), IntC(ar.Len())
			cp = ln
			break
		}
		in.fail("slice of %v", t)
	}
	lo, hi := IntC(0), ln
	if e.Low != nil {
		lo = in.eval(st, e.Low).node()
	}
	if e.High != nil {
		hi = in.eval(st, e.High).node()
	}
	in.bound(And(Le(IntC(0), lo), Le(lo, hi), Or(Le(hi, ln), Le(hi, cp)))) // the length is within the capacity
	ncp := Sub(cp, lo)
	if e.Max != nil {
		ncp = Sub(in.eval(st, e.Max).node(), lo)
	}
	rt := in.typeOf(e)
	return sliceVal(rt, ref, Add(off, lo), Sub(hi, lo), ncp)
}

// addrPath turns the address of an array into the base of a slice over it
func addrPath(a *Node) *Node {
	return mapRef(a, func(a *Node) *Node { return Addr(a.name+"[]", a.args...) })
}

func (in *Interp) compositeLit(st *State, e *ast.CompositeLit) Val {
	t := in.typeOf(e)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		// elided &T in a composite literal
		v := in.compositeOf(st, e, p.Elem())
		o := in.fixedObject(in.objID("lit", e.Pos()), "lit", v.t, false)
		in.initObject(st, o, v)
		return scalar(t, o.addr())
	}
	return in.compositeOf(st, e, t)
}

func (in *Interp) compositeOf(st *State, e *ast.CompositeLit, t types.Type) Val {
	if isFieldType(t) {
		for _, x := range e.Elts {
			if v := in.eval(st, x); !isZero(v.node()) {
				in.fail("field element literal")
			}
		}
		return scalar(t, FldC(0))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := zeroVal(t)
		set := func(i int, x Val) {
			off := 0
			for j := 0; j < i; j++ {
				off += len(leaves(u.Field(j).Type()))
			}
			x = in.convert(st, x, u.Field(i).Type())
			copy(v.l[off:], x.l)
		}
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						set(j, in.eval(st, kv.Value))
					}
				}
				continue
			}
			set(i, in.eval(st, x))
		}
		return v
	case *types.Slice, *types.Array:
		var elem types.Type
		if s, ok := u.(*types.Slice); ok {
			elem = s.Elem()
		} else {
			elem = u.(*types.Array).Elem()
		}
		z := zeroVal(elem)
		arr := make([]*Node, len(z.l))
		for i := range z.l {
			arr[i] = constLam(z.l[i])
		}
		n := int64(0)
		max := int64(0)
		lits := len(e.Elts)
		if lits > 200 {
			return in.bigLiteral(st, e, t, elem)
		}
		x := openIdx()
		body := append([]*Node{}, z.l...)
		for _, el := range e.Elts {
			val := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				c := in.eval(st, kv.Key).node()
				r, ok := constOf(c)
				if !ok {
					in.fail("key of a literal")
				}
				n = r.Num().Int64()
				val = kv.Value
			}
			v := in.convert(st, in.eval(st, val), elem)
			for i := range body {
				body[i] = Ite(mkEq(x, IntC(n)), v.l[i], body[i])
			}
			n++
			if n > max {
				max = n
			}
		}
		for i := range arr {
			arr[i] = mkLam(x, body[i])
		}
		if a, ok := u.(*types.Array); ok {
			_ = a
			return Val{t, arr}
		}
		o := in.fixedObject(in.objID("lit", e.Pos()), "lit", elem, true)
		o.size = IntC(max)
		for i, l := range leaves(elem) {
			st.cells[o.id+"|"+l.path] = arr[i]
		}
		return sliceVal(t, o.addr(), IntC(0), IntC(max), IntC(max))
	case *types.Map:
		if len(e.Elts) > 0 {
			in.fail("map literal")
		}
		return in.makeMap(st, t, e.Pos())
	}
	in.fail("literal of %v", t)
	return Val{}
}

// bigLiteral is a long table of constants
func (in *Interp) bigLiteral(st *State, e *ast.CompositeLit, t, elem types.Type) Val {
	key := fmt.Sprintf("literal:%d", int(e.Pos()))
	var arr []*Node
	for _, l := range leaves(elem) {
		arr = append(arr, arrSym(key+l.path, Sig{1 + l.dims, l.sort}))
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return Val{t, arr}
	}
	o := in.fixedObject(in.objID("lit", e.Pos()), "lit", elem, true)
	for i, l := range leaves(elem) {
		st.cells[o.id+"|"+l.path] = arr[i]
	}
	n := IntC(int64(len(e.Elts)))
	return sliceVal(t, o.addr(), IntC(0), n, n)
}

// ---------------------------------------------------------------------------
// Operators

func (in *Interp) binaryExpr(st *State, e *ast.BinaryExpr) Val {
	t := in.typeOf(e)
	switch e.Op {
	case token.LAND, token.LOR:
		x := in.eval(st, e.X).node()
		var y *Node
		// the right operand is evaluated when the left one does not settle the result
		c := x
		if e.Op == token.LOR {
			c = Not(x)
		}
		if c == NFalse {
			return scalar(t, x)
		}
		st2 := st.clone()
		in.under(c, func() { y = in.eval(st2, e.Y).node() })
		m := mergeStates(c, st2, st.clone())
		st.cells = m.cells
		if e.Op == token.LAND {
			return scalar(t, And(x, y))
		}
		return scalar(t, Or(x, y))
	}
	x := in.eval(st, e.X)
	y := in.eval(st, e.Y)
	return in.binary(st, e.Op, x, y, t)
}

func (in *Interp) equalVals(st *State, x, y Val) *Node {
	if isInterface(x.t) && !isInterface(y.t) {
		y = in.convert(st, y, x.t)
	}
	if isInterface(y.t) && !isInterface(x.t) {
		x = in.convert(st, x, y.t)
	}
	if len(x.l) != len(y.l) {
		// comparison with nil
		a, b := x, y
		if len(a.l) == 1 {
			a, b = b, a
		}
		if b.l[0] == zeroOf(SRef) && len(a.l) == 4 {
			return in.isNil(a.l[0])
		}
		if isFieldType(a.t) != isFieldType(b.t) {
			return mkEq(in.convert(st, x, frOf(x, y)).node(), in.convert(st, y, frOf(x, y)).node())
		}
		in.fail("comparison of %v and %v", x.t, y.t)
	}
	var l []*Node
	for i := range x.l {
		a, b := x.l[i], y.l[i]
		if a.sort == SArr {
			at, ok := x.t.Underlying().(*types.Array)
			if !ok {
				in.fail("comparison of arrays")
			}
			k := loopSym("k", IntC(at.Len()))
			l = append(l, mkForAll(k, mkEq(Apply(a, k), Apply(b, k))))
			continue
		}
		l = append(l, mkEq(a, b))
	}
	return And(l...)
}

func frOf(x, y Val) types.Type {
	if isFieldType(x.t) {
		return x.t
	}
	return y.t
}

func (in *Interp) isNil(ref *Node) *Node {
	switch {
	case ref == zeroOf(SRef):
		return NTrue
	case ref.kind == KAddr:
		return NFalse
	case ref.kind == KIte:
		return Or(And(ref.args[0], in.isNil(ref.args[1])), And(Not(ref.args[0]), in.isNil(ref.args[2])))
	}
	return mkEq(ref, zeroOf(SRef))
}

func isInterface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func (in *Interp) binary(st *State, op token.Token, x, y Val, t types.Type) Val {
	switch op {
	case token.EQL:
		return scalar(t, in.equalVals(st, x, y))
	case token.NEQ:
		return scalar(t, Not(in.equalVals(st, x, y)))
	}
	a, b := x.node(), y.node()
	if a.sort == SRef && op == token.ADD {
		return scalar(t, Text(a, b))
	}
	if a.sort == SBool {
		switch op {
		case token.AND:
			return scalar(t, And(a, b))
		case token.OR:
			return scalar(t, Or(a, b))
		}
	}
	if a.sort != SInt || b.sort != SInt {
		in.fail("operator %s on %v: %s, %s", op, x.t, clip(show(a), 200), clip(show(b), 200))
	}
	switch op {
	case token.ADD:
		return scalar(t, Add(a, b))
	case token.SUB:
		return scalar(t, Sub(a, b))
	case token.MUL:
		return scalar(t, Mul(a, b))
	case token.QUO:
		in.bound(Not(mkEq(b, IntC(0))))
		return scalar(t, mkDiv(a, b))
	case token.REM:
		in.bound(Not(mkEq(b, IntC(0))))
		return scalar(t, mkMod(a, b))
	case token.SHL:
		in.bound(Le(IntC(0), b))
		return scalar(t, Mul(a, P2(b)))
	case token.SHR:
		in.bound(Le(IntC(0), b))
		return scalar(t, mkDiv(a, P2(b)))
	case token.LSS:
		return scalar(t, Lt(a, b))
	case token.LEQ:
		return scalar(t, Le(a, b))
	case token.GTR:
		return scalar(t, Lt(b, a))
	case token.GEQ:
		return scalar(t, Le(b, a))
	case token.AND:
		// masks of low bits
		if m := lowMask(b); m != nil {
			return scalar(t, mkMod(a, m))
		}
		if m := lowMask(a); m != nil {
			return scalar(t, mkMod(b, m))
		}
		return scalar(t, App("and", SInt, sort2(a, b)...))
	case token.OR, token.XOR:
		if disjointBits(a, b) || disjointBits(b, a) {
			return scalar(t, Add(a, b))
		}
		if op == token.XOR {
			return scalar(t, App("xor", SInt, sort2(a, b)...))
		}
		return scalar(t, App("or", SInt, sort2(a, b)...))
	}
	in.fail("operator %s", op)
	return Val{}
}

func init() {
	for _, op := range []string{"or", "xor"} {
		appRules[op] = func(a []*Node) *Node {
			if disjointBits(a[0], a[1]) || disjointBits(a[1], a[0]) {
				return Add(a[0], a[1])
			}
			return nil
		}
	}
}

// powerOf2: b is a power of two, maybe a fraction
func powerOf2(b *Node) bool {
	ts := termsOf(b)
	if len(ts) != 1 || ts[0].C.Sign() <= 0 {
		return false
	}
	for _, f := range ts[0].M {
		if f.A.kind != KP2 {
			return false
		}
	}
	one := big.NewInt(1)
	for _, x := range []*big.Int{ts[0].C.Num(), ts[0].C.Denom()} {
		if new(big.Int).And(x, new(big.Int).Sub(x, one)).Sign() != 0 {
			return false
		}
	}
	return true
}

// disjointBits: a is a multiple of a power of two that b is smaller than
func disjointBits(a, b *Node) bool {
	if !nonneg(b) {
		return false
	}
	var l []*Node
	for i, t := range append(termsOf(b), termsOf(a)...) {
		m := Const(SInt, t.C)
		for _, f := range t.M {
			if f.A.kind == KP2 {
				m = Mul(m, factorNode(SInt, f))
			}
		}
		if i < len(termsOf(b)) {
			m = Scale(big.NewRat(2, 1), m)
		}
		l = append(l, m)
	}
	for _, m := range l {
		// b is certainly below twice itself
		twice := m == Scale(big.NewRat(2, 1), b) && powerOf2(b)
		if !twice && (lowMask(Sub(m, IntC(1))) == nil || !nonneg(Sub(m, Add(b, IntC(1))))) {
			continue
		}
		if isZero(mkMod(a, m)) {
			return true
		}
	}
	return false
}

func sort2(a, b *Node) []*Node {
	if a.id < b.id {
		return []*Node{a, b}
	}
	return []*Node{b, a}
}

// lowMask returns 2^n when b is 2^n-1
func lowMask(b *Node) *Node {
	m := Add(b, IntC(1))
	if c, ok := constOf(m); ok {
		if c.IsInt() && c.Sign() > 0 && new(big.Int).And(c.Num(), new(big.Int).Sub(c.Num(), big.NewInt(1))).Sign() == 0 {
			return m
		}
		return nil
	}
	ts := termsOf(m)
	if len(ts) != 1 || ts[0].C.Cmp(ratOne) != 0 {
		return nil
	}
	for _, f := range ts[0].M {
		if f.A.kind != KP2 {
			return nil
		}
	}
	return m
}

// convert changes the static type of a value
func (in *Interp) convert(st *State, v Val, t types.Type) Val {
	if v.t == nil {
		return Val{t, v.l}
	}
	if isInterface(t) && !isFieldType(t) {
		if isInterface(v.t) {
			return Val{t, v.l}
		}
		if b, ok := v.t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return Val{t, v.l}
		}
		vt := types.Default(v.t)
		name := "iface:" + types.TypeString(vt, func(p *types.Package) string { return p.Path() })
		in.ifaceTypes[name] = vt
		return scalar(t, App(name, SRef, v.l...))
	}
	if isFieldType(t) && !isFieldType(v.t) {
		if _, ok := v.t.Underlying().(*types.Array); ok {
			k := openIdx()
			if isZero(Apply(v.l[0], k)) {
				return scalar(t, FldC(0))
			}
		}
		in.fail("conversion of %v to a field element", v.t)
	}
	ls := leaves(t)
	if len(ls) != len(v.l) {
		if len(v.l) == 1 && v.l[0] == zeroOf(SRef) {
			return zeroVal(t)
		}
		in.fail("conversion of %v to %v", v.t, t)
	}
	return Val{t, v.l}
}

// unbox gives the concrete value inside an interface
func (in *Interp) unbox(n *Node, t types.Type) Val {
	name := "iface:" + types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if n.kind == KApp && n.name == name {
		return Val{t, n.args}
	}
	in.fail("type assertion on %s", show(n))
	return Val{}
}

// fieldOf converts the argument of a constraint system function to a field element
func (in *Interp) fieldOf(n *Node) *Node {
	if n.sort == SField {
		return n
	}
	if n.kind == KIte {
		return Ite(n.args[0], in.fieldOf(n.args[1]), in.fieldOf(n.args[2]))
	}
	if n.kind == KApp && strings.HasPrefix(strings.TrimPrefix(n.name, "value:"), "iface:") && len(n.args) == 1 {
		a := n.args[0]
		switch a.sort {
		case SField:
			return a
		case SInt:
			return I2F(a)
		}
		if a.kind == KApp && strings.HasPrefix(a.name, "const:") {
			if i, ok := new(big.Int).SetString(strings.TrimPrefix(a.name, "const:"), 10); ok {
				return Const(SField, new(big.Rat).SetInt(i))
			}
		}
	}
	return App("asField", SField, n)
}
