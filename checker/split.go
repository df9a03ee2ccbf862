package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
)

// ---------------------------------------------------------------------------
// A loop whose body treats the iterations before and after some bound differently
//
//	for i := 0; i < n; i++ { if i < m { A } else { B } }
//
// is the sequence of the loops over [0, m) and [m, n). This is only tried when the loop as a whole does not lead to
// a conclusion (see decideObligation): both readings are exact.

// splitPoints are the expressions at which the behaviour of an iteration may change: those that the variable is
// compared with, and their comparison: true if it is the last one before the change
type splitPoint struct {
	e    ast.Expr
	last bool
}

func splitPoints(info *types.Info, v types.Object, body *ast.BlockStmt) []splitPoint {
	// the variables that the body may change
	assigned := map[types.Object]bool{v: true}
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				if o := info.ObjectOf(x); o != nil {
					assigned[o] = true
				}
				return
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			default:
				return
			}
		}
	}
	ok := true
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				mark(l)
				if id, isId := l.(*ast.Ident); isId && info.Uses[id] == v {
					ok = false
				}
			}
		case *ast.IncDecStmt:
			mark(s.X)
			if id, isId := s.X.(*ast.Ident); isId && info.Uses[id] == v {
				ok = false
			}
		case *ast.RangeStmt:
			if s.Key != nil {
				mark(s.Key)
			}
			if s.Value != nil {
				mark(s.Value)
			}
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				mark(s.X)
				if id, isId := s.X.(*ast.Ident); isId && info.Uses[id] == v {
					ok = false
				}
			}
		}
		return true
	})
	if !ok {
		return nil
	}
	var l []splitPoint
	constant := func(e ast.Expr) bool {
		c := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.Ident:
				o := info.ObjectOf(x)
				if _, isVar := o.(*types.Var); isVar && (assigned[o] || (o.Pos() >= body.Pos() && o.Pos() < body.End())) {
					c = false
				}
			case *ast.CallExpr:
				if id, isId := x.Fun.(*ast.Ident); !isId || id.Name != "len" {
					c = false
				}
			case *ast.BasicLit, *ast.BinaryExpr, *ast.ParenExpr, *ast.SelectorExpr, nil:
			default:
				c = false
			}
			return c
		})
		return c
	}
	is := func(e ast.Expr) bool {
		id, isId := ast.Unparen(e).(*ast.Ident)
		return isId && info.Uses[id] == v
	}
	ast.Inspect(body, func(n ast.Node) bool {
		b, isB := n.(*ast.BinaryExpr)
		if !isB {
			return true
		}
		x, y, op := b.X, b.Y, b.Op
		if is(y) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !is(x) || !constant(y) {
			return true
		}
		switch op {
		case token.LSS, token.GEQ:
			l = append(l, splitPoint{y, false})
		case token.LEQ, token.GTR:
			l = append(l, splitPoint{y, true})
		}
		return true
	})
	if len(l) > 4 {
		return nil
	}
	return l
}

// bounds evaluates the points, in increasing order and all between lo and hi
func (in *Interp) bounds2(st *State, points []splitPoint, lo, hi *Node) []*Node {
	var l []*Node
	for _, p := range points {
		in.quiet++
		x := in.eval(st.clone(), p.e).node()
		in.quiet--
		if p.last {
			x = Add(x, IntC(1))
		}
		known := x == lo || x == hi
		for _, y := range l {
			known = known || x == y
		}
		if known || !provable(Le(lo, x), 4) || !provable(Le(x, hi), 4) {
			continue
		}
		l = append(l, x)
	}
	ok := true
	sort.SliceStable(l, func(i, j int) bool { return provable(Le(l[i], l[j]), 4) && l[i] != l[j] })
	for i := 1; i < len(l); i++ {
		ok = ok && provable(Le(l[i-1], l[i]), 4)
	}
	if !ok {
		return nil
	}
	return l
}

// inParts executes the parts of a loop one after the other
func (in *Interp) inParts(st *State, n int, part func(st *State, i int) Out) Out {
	key := in.frame.callKey
	defer func() { in.frame.callKey = key }()
	var seq func(st *State, i int) Out
	seq = func(st *State, i int) Out {
		if i == n {
			return Out{st: st}
		}
		in.frame.callKey = fmt.Sprintf("%s^%d", key, i)
		o := part(st, i)
		in.frame.callKey = key
		out := Out{rets: o.rets}
		if o.st == nil {
			return out
		}
		if len(o.brks)+len(o.conts) > 0 {
			in.fail("jump out of a loop")
		}
		var r Out
		if left := notLeft(Out{rets: o.rets}); left == NTrue {
			r = seq(o.st, i+1)
		} else {
			in.under(left, func() { r = seq(o.st, i+1) })
		}
		out.rets = append(out.rets, r.rets...)
		out.st = r.st
		return out
	}
	return seq(st, 0)
}

// splitFor executes `for i := a; i < b; i++` in parts
func (in *Interp) splitFor(st *State, s *ast.ForStmt, mk func() *loopCtx) (Out, bool) {
	info := in.frame.pkg.info
	if !plainBody(s.Body) {
		return Out{}, false
	}
	init, ok := s.Init.(*ast.AssignStmt)
	if !ok || init.Tok != token.DEFINE || len(init.Lhs) != 1 {
		return Out{}, false
	}
	id, ok := init.Lhs[0].(*ast.Ident)
	if !ok {
		return Out{}, false
	}
	v := info.Defs[id]
	inc, ok := s.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC {
		return Out{}, false
	}
	if x, ok := inc.X.(*ast.Ident); !ok || info.Uses[x] != v || v == nil {
		return Out{}, false
	}
	c, ok := s.Cond.(*ast.BinaryExpr)
	if !ok || (c.Op != token.LSS && c.Op != token.LEQ) {
		return Out{}, false
	}
	x, ok := c.X.(*ast.Ident)
	if !ok || info.Uses[x] != v {
		return Out{}, false
	}
	points := splitPoints(info, v, s.Body)
	if len(points) == 0 {
		return Out{}, false
	}
	in.splittable = true
	if !in.split {
		return Out{}, false
	}
	in.quiet++
	lo := in.eval(st.clone(), x).node()
	hi := in.eval(st.clone(), c.Y).node()
	in.quiet--
	if c.Op == token.LEQ {
		hi = Add(hi, IntC(1))
	}
	bs := in.bounds2(st, points, lo, hi)
	if len(bs) == 0 {
		return Out{}, false
	}
	return in.inParts(st, len(bs)+1, func(st *State, i int) Out {
		lc := mk()
		if i < len(bs) {
			lc.cond = func(st *State) *Node { return Lt(in.eval(st, x).node(), bs[i]) }
		}
		return lc.run(st)
	}), true
}

// splitRange executes a range loop over the indices of n elements in parts
func (in *Interp) splitRange(st *State, s *ast.RangeStmt, n *Node, mk func() *loopCtx) (Out, bool) {
	id, ok := s.Key.(*ast.Ident)
	if !ok || s.Tok != token.DEFINE || !plainBody(s.Body) {
		return Out{}, false
	}
	v := in.frame.pkg.info.Defs[id]
	if v == nil {
		return Out{}, false
	}
	points := splitPoints(in.frame.pkg.info, v, s.Body)
	if len(points) == 0 {
		return Out{}, false
	}
	in.splittable = true
	if !in.split {
		return Out{}, false
	}
	bs := in.bounds2(st, points, IntC(0), n)
	if len(bs) == 0 {
		return Out{}, false
	}
	bs = append([]*Node{IntC(0)}, append(bs, n)...)
	return in.inParts(st, len(bs)-1, func(st *State, i int) Out {
		lc := mk()
		body, base := lc.body, bs[i]
		lc.n = Sub(bs[i+1], base)
		lc.body = func(st *State, k *Node) Out { return body(st, Add(base, k)) }
		return lc.run(st)
	}), true
}
