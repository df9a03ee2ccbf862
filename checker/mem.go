package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Layout of Go values: every type is a list of scalar leaves

type Leaf struct {
	path string
	dims int
	sort Sort
	typ  types.Type // type of the scalar (for slices, the slice type)
}

var leafCache = map[string][]Leaf{}

func isFieldType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return (n.Obj().Name() == "Element" && strings.HasSuffix(p, "gurvy/bn256/fr")) ||
		(n.Obj().Name() == "Variable" && strings.HasSuffix(p, "gnark/frontend"))
}

func isFrontendVar(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Variable" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "gnark/frontend")
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if strings.HasPrefix(p, "gkr-mimc/") || strings.HasPrefix(p, "verifspec") {
		return false
	}
	_, st := n.Underlying().(*types.Struct)
	return st
}

func leaves(t types.Type) []Leaf {
	k := types.TypeString(t, nil)
	if l, ok := leafCache[k]; ok {
		return l
	}
	var l []Leaf
	flatten(t, "", 0, &l)
	leafCache[k] = l
	return l
}

func flatten(t types.Type, path string, dims int, out *[]Leaf) {
	if isFieldType(t) {
		*out = append(*out, Leaf{path, dims, SField, t})
		return
	}
	if types.TypeString(t, nil) == "sync.WaitGroup" {
		*out = append(*out, Leaf{path, dims, SInt, t}) // its counter
		return
	}
	if isOpaqueStruct(t) {
		*out = append(*out, Leaf{path, dims, SRef, t})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := SRef
		if u.Info()&types.IsInteger != 0 {
			s = SInt
		} else if u.Info()&types.IsBoolean != 0 {
			s = SBool
		}
		*out = append(*out, Leaf{path, dims, s, t})
	case *types.Slice:
		*out = append(*out, Leaf{path + "#ref", dims, SRef, t}, Leaf{path + "#off", dims, SInt, t},
			Leaf{path + "#len", dims, SInt, t}, Leaf{path + "#cap", dims, SInt, t})
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			flatten(u.Field(i).Type(), path+"."+u.Field(i).Name(), dims, out)
		}
	case *types.Array:
		flatten(u.Elem(), path+"[]", dims+1, out)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			flatten(u.At(i).Type(), fmt.Sprintf("%s.%d", path, i), dims, out)
		}
	default:
		*out = append(*out, Leaf{path, dims, SRef, t})
	}
}

// Val is the value of an expression
type Val struct {
	t types.Type
	l []*Node
}

func (v Val) node() *Node {
	if len(v.l) != 1 {
		fail("scalar expected, got %v", v.t)
	}
	return v.l[0]
}

func scalar(t types.Type, n *Node) Val { return Val{t, []*Node{n}} }

func sliceVal(t types.Type, ref, off, ln, cp *Node) Val { return Val{t, []*Node{ref, off, ln, cp}} }

var nilNode *Node

func zeroOf(s Sort) *Node {
	switch s {
	case SInt:
		return IntC(0)
	case SField:
		return FldC(0)
	case SBool:
		return NFalse
	}
	if nilNode == nil {
		nilNode = App("nil", SRef)
	}
	return nilNode
}

func lift(n *Node, dims int) *Node {
	for i := 0; i < dims; i++ {
		n = constLam(n)
	}
	return n
}

func zeroVal(t types.Type) Val {
	v := Val{t: t}
	for _, l := range leaves(t) {
		v.l = append(v.l, lift(zeroOf(l.sort), l.dims))
	}
	return v
}

// field extracts a component of a struct value
func (v Val) field(i int) Val {
	st := v.t.Underlying().(*types.Struct)
	off := 0
	for j := 0; j < i; j++ {
		off += len(leaves(st.Field(j).Type()))
	}
	n := len(leaves(st.Field(i).Type()))
	return Val{st.Field(i).Type(), v.l[off : off+n]}
}

// ---------------------------------------------------------------------------
// Memory

type Object struct {
	id      string
	name    string
	elem    types.Type
	backing bool // has one index of its own (backing array of a slice)
	args    []*Node
	lifted  int
	seq     int
	root    string // for the objects of the caller, where they come from
	size    *Node  // number of elements of a backing array, if known
	tailOf  *Node  // append result possibly sharing the array of another slice
	tailLen *Node
	isVar   bool
	shared  int // the variable of a loop shared by its iterations: how many indices are those of loops
	pos     string
}

type State struct {
	cells map[string]*Node
}

func (s *State) clone() *State {
	c := make(map[string]*Node, len(s.cells))
	for k, v := range s.cells {
		c[k] = v
	}
	return &State{c}
}

func splitAddr(a *Node) (string, string) {
	i := strings.IndexByte(a.name, '|')
	return a.name[:i], a.name[i+1:]
}

func (in *Interp) newObject(name string, elem types.Type, backing bool) *Object {
	in.objSeq++
	o := &Object{id: fmt.Sprintf("%s@%d", name, in.objSeq), name: name, elem: elem, backing: backing, seq: in.objSeq}
	o.args = append([]*Node{}, in.loops...)
	in.objs[o.id] = o
	return o
}

// globalObject is an object that exists before the analysed call
func (in *Interp) rootObject(id string, elem types.Type, backing bool, liftedDims int) *Object {
	if o, ok := in.objs[id]; ok {
		return o
	}
	o := &Object{id: id, name: id, elem: elem, backing: backing, root: id}
	for i := 0; i < liftedDims; i++ {
		o.args = append(o.args, nil)
	}
	o.lifted = liftedDims
	in.objs[id] = o
	return o
}

func (o *Object) addr() *Node { return Addr(o.id+"|", o.args...) }

// object dims in memory right now for a leaf
func (in *Interp) obj(a *Node) *Object {
	id, _ := splitAddr(a)
	o := in.objs[id]
	if o == nil {
		fail("unknown object %s", id)
	}
	return o
}

func mapRef(ref *Node, f func(*Node) *Node) *Node {
	if ref.kind == KIte {

		c := ref.args[0]
		if len(facts.list) > 0 {
			c = Rebuild(c)
			if c == NTrue {
				return mapRef(ref.args[1], f)
			}
			if c == NFalse {
				return mapRef(ref.args[2], f)
			}
		}
		var a, b *Node
		withFacts([]*Node{c}, func() { a = mapRef(ref.args[1], f) })
		withFacts([]*Node{Not(c)}, func() { b = mapRef(ref.args[2], f) })
		return Ite(c, a, b)
	}
	return f(ref)
}

// noMemory: nil, or the address of something that does not exist: the program would have stopped
func noMemory(a *Node) bool {
	return a.kind == KApp && (a.name == "undef" || a.name == "nil") && len(a.args) == 0
}

func addrField(a *Node, name string) *Node {
	return mapRef(a, func(a *Node) *Node {
		if a.kind != KAddr {
			if noMemory(a) {
				return App("undef", SRef)
			}
			fail("field %s of an unknown address %s", name, show(a))
		}
		return Addr(a.name+"."+name, a.args...)
	})
}

func addrIndex(a *Node, i *Node, path bool) *Node {
	return mapRef(a, func(a *Node) *Node {
		if a.kind != KAddr {
			if noMemory(a) {
				return App("undef", SRef)
			}
			fail("index of an unknown address %s", show(a))
		}
		n := a.name
		if path {
			n += "[]"
		}
		return Addr(n, append(append([]*Node{}, a.args...), i)...)
	})
}

func (in *Interp) checkArgs(o *Object, a *Node) []*Node {
	u := len(o.args) - o.lifted
	for i := 0; i < u; i++ {
		if i >= len(a.args) || a.args[i] != o.args[i] {
			fail("object %s of another iteration", o.id)
		}
	}
	return a.args[u:]
}

func (in *Interp) loadLeaf(st *State, a *Node, l Leaf) *Node {
	if noMemory(a) {
		return undefOf(l)
	}
	if a.kind != KAddr {
		fail("read through an unknown address %s", show(a))
	}
	o := in.obj(a)
	idx := in.checkArgs(o, a)
	_, p := splitAddr(a)
	c := in.cell(st, o, p+l.path, l.sort, len(idx)+l.dims)
	in.access(a, l.path, false)
	return ApplyAll(c, idx...)
}

func undefOf(l Leaf) *Node {
	if l.dims > 0 {
		return AppArr("undef", Sig{l.dims, l.sort})
	}
	return App("undef", l.sort)
}

// cell returns the content of an object's leaf, creating symbolic content for the caller's objects
func (in *Interp) cell(st *State, o *Object, path string, s Sort, dims int) *Node {
	k := o.id + "|" + path
	if c, ok := st.cells[k]; ok {
		return c
	}
	if c, ok := in.initial[k]; ok {
		st.cells[k] = c
		return c
	}
	if o.root != "" {
		var c *Node
		name := o.root + path
		if dims == 0 {
			c = namedSym(name, s, nil)
		} else {
			c = arrSym(name, Sig{dims, s})
		}
		in.initial[k] = c
		st.cells[k] = c
		return c
	}
	fail("read of uninitialised %s", k)
	return nil
}

func (in *Interp) load(st *State, a *Node, t types.Type) Val {
	v := Val{t: t}
	for _, l := range leaves(t) {
		l := l
		v.l = append(v.l, mapRef(a, func(a *Node) *Node { return in.loadLeaf(st, a, l) }))
	}
	in.materialise(&v, a)
	return v
}

// materialise gives the slices and pointers found in the caller's symbolic data an object
func (in *Interp) materialise(v *Val, a *Node) {}

func (in *Interp) storeLeaf(st *State, a *Node, l Leaf, val *Node) {
	if a.kind == KIte {
		c := a.args[0]
		// each alternative is written under its condition
		for i, g := range []*Node{c, Not(c)} {
			b := a.args[1+i]
			if b.kind == KAddr || b.kind == KIte {
				old := mapRef(b, func(x *Node) *Node { return in.loadLeaf(st, x, l) })
				in.storeLeaf(st, b, l, Ite(g, val, old))
			}
		}
		return
	}
	if noMemory(a) {
		st.cells[panicCell] = NTrue
		return
	}
	if a.kind != KAddr {
		fail("write through an unknown address %s", show(a))
	}
	o := in.obj(a)
	idx := in.checkArgs(o, a)
	_, p := splitAddr(a)
	k := o.id + "|" + p + l.path
	in.access(a, l.path, true)
	if len(idx) == 0 {
		st.cells[k] = val
		return
	}
	c := in.cell(st, o, p+l.path, l.sort, len(idx)+l.dims)
	st.cells[k] = writeAt(c, idx, val)
}

func writeAt(c *Node, idx []*Node, val *Node) *Node {
	if len(idx) == 0 {
		return val
	}
	xs := make([]*Node, len(idx))
	cond := NTrue
	r := c
	for i := range idx {
		xs[i] = openIdx()
		if idx[i].sort != SInt {
			xs[i] = newSym("o", idx[i].sort, nil)
		}
		r = Apply(r, xs[i])
		cond = And(cond, mkEq(xs[i], idx[i]))
	}
	body := Ite(cond, val, r)
	for i := len(xs) - 1; i >= 0; i-- {
		body = mkLam(xs[i], body)
	}
	return body
}

func (in *Interp) store(st *State, a *Node, v Val) {
	for i, l := range leaves(v.t) {
		in.storeLeaf(st, a, l, v.l[i])
	}
}

// initObject sets the content of a fresh object without recording an access
func (in *Interp) initObject(st *State, o *Object, v Val) {
	for i, l := range leaves(v.t) {
		n := v.l[i]
		if o.backing {
			n = constLam(n)
		}
		st.cells[o.id+"|"+l.path] = n
	}
}

func mergeStates(c *Node, a, b *State) *State {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	r := &State{make(map[string]*Node, len(a.cells))}
	for k, x := range a.cells {
		if y, ok := b.cells[k]; ok {
			if x != y {
				x = Ite(c, x, y)
			}
		}
		r.cells[k] = x
	}
	for k, y := range b.cells {
		if _, ok := r.cells[k]; !ok {
			r.cells[k] = y
		}
	}
	return r
}

func mergeVals(c *Node, a, b []Val) []Val {
	r := make([]Val, len(a))
	for i := range a {
		r[i] = Val{t: a[i].t}
		for j := range a[i].l {
			r[i].l = append(r[i].l, Ite(c, a[i].l[j], b[i].l[j]))
		}
	}
	return r
}

// ---------------------------------------------------------------------------
// Deep contents: a value together with everything it refers to, as plain terms

type Deep struct {
	path string
	n    *Node
}

func (in *Interp) deep(st *State, v Val) []Deep {
	var out []Deep
	in.deepInto(st, v, "", 0, &out)
	return out
}

func (in *Interp) deepInto(st *State, v Val, path string, depth int, out *[]Deep) {
	if depth > 8 {
		fail("value too deep")
	}
	t := v.t
	if isFieldType(t) || isOpaqueStruct(t) {
		*out = append(*out, Deep{path, v.l[0]})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		ref, off, ln := v.l[0], v.l[1], v.l[2]
		*out = append(*out, Deep{path + "#len", ln})
		in.deepElems(st, ref, off, ln, u.Elem(), path, depth, out)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			in.deepInto(st, v.field(i), path+"."+u.Field(i).Name(), depth+1, out)
		}
	case *types.Array:
		x := openIdx()
		x.info.hi = IntC(u.Len())
		e := Val{t: u.Elem()}
		for _, n := range v.l {
			e.l = append(e.l, Apply(n, x))
		}
		var sub []Deep
		in.deepInto(st, e, path+"[]", depth+1, &sub)
		for _, d := range sub {
			*out = append(*out, Deep{d.path, mkLam(x, d.n)})
		}
	case *types.Pointer:
		a := v.l[0]
		if isOpaqueStruct(u.Elem()) {
			*out = append(*out, Deep{path, App("opaqueptr", SRef)})
			return
		}
		if a == zeroOf(SRef) {
			*out = append(*out, Deep{path, a})
			return
		}
		in.deepInto(st, in.load(st, a, u.Elem()), path+"*", depth+1, out)
	default:
		if len(v.l) == 1 {
			*out = append(*out, Deep{path, in.deepRef(st, v.l[0], depth)})
			return
		}
		fail("deep content of %v", t)
	}
}

// deepRef replaces the addresses inside opaque values (interfaces) by the content they refer to
func (in *Interp) deepRef(st *State, n *Node, depth int) *Node {
	if n.kind == KApp && strings.HasPrefix(n.name, "iface:") {
		t := in.ifaceTypes[n.name]
		var ds []Deep
		in.deepInto(st, Val{t, n.args}, "", depth+1, &ds)
		var l []*Node
		for _, d := range ds {
			l = append(l, d.n)
		}
		return App("value:"+n.name, SRef, l...)
	}
	if n.kind == KIte {
		return Ite(n.args[0], in.deepRef(st, n.args[1], depth), in.deepRef(st, n.args[2], depth))
	}
	return n
}

func (in *Interp) deepElems(st *State, ref, off, ln *Node, elem types.Type, path string, depth int, out *[]Deep) {
	x := openIdx()
	x.info.hi = ln
	if ref == zeroOf(SRef) || isZero(ln) {
		// the content of an empty slice
		var sub []Deep
		in.emptyDeep(elem, path+"[]", &sub, 1)
		*out = append(*out, sub...)
		return
	}
	a := addrIndex(ref, Add(off, x), false)
	in.quiet++
	e := in.load(st, a, elem)
	in.quiet--
	if in.deepAccess != nil {
		in.deepAccess(ref, ln)
	}
	var sub []Deep
	in.deepInto(st, e, path+"[]", depth+1, &sub)
	for _, d := range sub {
		*out = append(*out, Deep{d.path, mkLam(x, Rebuild(d.n))})
	}
}

func (in *Interp) emptyDeep(t types.Type, path string, out *[]Deep, dims int) {
	if isFieldType(t) || isOpaqueStruct(t) {
		s := SField
		if !isFieldType(t) {
			s = SRef
		}
		*out = append(*out, Deep{path, lift(zeroOf(s), dims)})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		*out = append(*out, Deep{path + "#len", lift(IntC(0), dims)})
		in.emptyDeep(u.Elem(), path+"[]", out, dims+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			in.emptyDeep(u.Field(i).Type(), path+"."+u.Field(i).Name(), out, dims)
		}
	case *types.Array:
		in.emptyDeep(u.Elem(), path+"[]", out, dims+1)
	default:
		for _, l := range leaves(t) {
			*out = append(*out, Deep{path, lift(zeroOf(l.sort), dims+l.dims)})
		}
	}
}

// symbolic builds a value of type t out of uninterpreted terms: mk is called for each scalar
// with its path, sort, and the indices it depends on. Slices get a fresh root object.
func (in *Interp) symbolic(st *State, t types.Type, name, path string, idx []*Node, mk func(path string, s Sort, idx []*Node) *Node) Val {
	if isFieldType(t) {
		return scalar(t, mk(path, SField, idx))
	}
	if isOpaqueStruct(t) {
		return scalar(t, mk(path, SRef, idx))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		ln := mk(path+"#len", SInt, idx)
		o := in.symObject(st, u.Elem(), name, path+"[]", idx, true, mk)
		return sliceVal(t, Addr(o.id+"|", idx...), IntC(0), ln, App("cap", SInt, Addr(o.id+"|", idx...)))
	case *types.Struct:
		v := Val{t: t}
		for i := 0; i < u.NumFields(); i++ {
			f := in.symbolic(st, u.Field(i).Type(), name, path+"."+u.Field(i).Name(), idx, mk)
			v.l = append(v.l, f.l...)
		}
		return v
	case *types.Array:
		x := openIdx()
		e := in.symbolic(st, u.Elem(), name, path+"[]", append(append([]*Node{}, idx...), x), mk)
		v := Val{t: t}
		for _, n := range e.l {
			v.l = append(v.l, mkLam(x, n))
		}
		return v
	case *types.Pointer:
		if isOpaqueStruct(u.Elem()) {
			return scalar(t, mk(path, SRef, idx))
		}
		o := in.symObject(st, u.Elem(), name, path+"*", idx, false, mk)
		return scalar(t, Addr(o.id+"|", idx...))
	case *types.Basic:
		l := leaves(t)[0]
		return scalar(t, mk(path, l.sort, idx))
	}
	return scalar(t, mk(path, SRef, idx))
}

// symObject creates the object behind a symbolic slice or pointer found at the given indices
func (in *Interp) symObject(st *State, elem types.Type, name, path string, idx []*Node, backing bool, mk func(string, Sort, []*Node) *Node) *Object {
	id := name + path
	if o, ok := in.objs[id]; ok {
		return o
	}
	o := in.rootObject(id, elem, backing, len(idx))
	var xs []*Node
	for range idx {
		xs = append(xs, openIdx())
	}
	all := xs
	if backing {
		all = append(append([]*Node{}, xs...), openIdx())
	}
	v := in.symbolic(st, elem, name, path, all, mk)
	for i, l := range leaves(elem) {
		n := v.l[i]
		for j := len(all) - 1; j >= 0; j-- {
			n = mkLam(all[j], n)
		}
		in.initial[o.id+"|"+l.path] = n
		st.cells[o.id+"|"+l.path] = n
	}
	return o
}

func sortedCells(m map[string]*Node) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
