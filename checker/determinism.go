package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// ---------------------------------------------------------------------------
// Determinism (P13): nothing the library does, outside test utilities, takes its value or its order from the scheduler,
// the iteration order of a map, a clock, the environment or a source of randomness. (Arrival orders on channels are
// covered by the obligations, which leave them open.)

var nondeterministic = map[string]string{
	"math/rand": "randomness", "math/rand/v2": "randomness", "crypto/rand": "randomness",
	"time.Now": "the clock", "time.Since": "the clock", "time.After": "the clock", "time.Tick": "the clock", "time.NewTimer": "the clock", "time.NewTicker": "the clock",
	"os.Getenv": "the environment", "os.LookupEnv": "the environment", "os.Environ": "the environment", "os.Getpid": "the environment", "os.Hostname": "the environment",
	"runtime.NumGoroutine": "the scheduler", "maps.Keys": "the order of a map", "maps.Values": "the order of a map", "maps.All": "the order of a map",
}

func determinismRule(p *Program, r *Result) {
	pkgs := p.ownPackages()
	type fn struct {
		pk *Package
		d  *ast.FuncDecl
		o  *types.Func
	}
	byObj := map[*types.Func]*fn{}
	var work []*fn
	reached := map[*fn]bool{}
	why := map[*fn]string{}
	visit := func(f *fn, from string) {
		if f != nil && !reached[f] {
			reached[f] = true
			why[f] = from
			work = append(work, f)
		}
	}
	for _, pk := range pkgs {
		for _, f := range pk.files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					o := pk.info.Defs[fd.Name].(*types.Func)
					byObj[o] = &fn{pk, fd, o}
				}
			}
		}
	}
	for o, f := range byObj {
		if f.pk.tpkg.Name() != "common" && (o.Exported() || o.Name() == "init") {
			visit(f, "")
		}
	}
	inits := func(pk *Package) {
		for _, f := range pk.files {
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok {
					ast.Inspect(g, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok {
							if o, ok := pk.info.Uses[id].(*types.Func); ok {
								visit(byObj[o.Origin()], "")
							}
						}
						return true
					})
				}
			}
		}
	}
	for _, pk := range pkgs {
		inits(pk)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		r.Calls++
		name := funcKey(f.o)
		r.Reached = append(r.Reached, name)
		path := strings.TrimPrefix(why[f]+" → "+name, " → ")
		info := f.pk.info
		bad := func(pos token.Pos, key, what string) {
			r.fail("determinism/"+name+"/"+key, "%s (%s): %s", p.pos(pos), path, what)
		}
		ast.Inspect(f.d.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				o, ok := info.Uses[n].(*types.Func)
				if !ok {
					return true
				}
				r.Sites++
				if t := byObj[o.Origin()]; t != nil {
					visit(t, path)
					return true
				}
				if o.Pkg() == nil {
					return true
				}
				w := nondeterministic[o.Pkg().Path()]
				if w == "" {
					w = nondeterministic[o.Pkg().Path()+"."+o.Name()]
				}
				if o.Name() == "SetRandom" {
					w = "randomness"
				}
				if w != "" {
					bad(n.Pos(), o.Name(), "what is computed depends on "+w+" ("+o.Pkg().Name()+"."+o.Name()+")")
				}
			case *ast.SelectStmt:
				r.Sites++
				if len(n.Body.List) > 1 {
					bad(n.Pos(), "select", "a select statement takes whichever communication happens to be ready")
				}
			case *ast.RangeStmt:
				r.Sites++
				if t := info.TypeOf(n.X); t != nil && isMapT(t.Underlying()) {
					if s := ordered(info, f.d, n); s != nil {
						bad(s.Pos(), "map order", "the iteration over a map does something that depends on its order")
					}
				}
			case *ast.CallExpr:
				if tv := info.Types[n.Fun]; tv.IsType() {
					if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr && len(n.Args) == 1 {
						if x, ok := info.TypeOf(n.Args[0]).Underlying().(*types.Basic); ok && x.Kind() == types.UnsafePointer {
							bad(n.Pos(), "address", "an address is used as a number")
						}
					}
				}
			}
			return true
		})
	}
	for _, pk := range pkgs {
		r.Decided = append(r.Decided, "package "+pk.path)
	}
}

// ordered returns a part of the iteration over a map whose effect may depend on the order, nil if there is none
func ordered(info *types.Info, fd *ast.FuncDecl, r *ast.RangeStmt) ast.Node {
	var key types.Object
	if id, ok := r.Key.(*ast.Ident); ok {
		key = info.ObjectOf(id)
	}
	local := func(e ast.Expr) bool {
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.Ident:
				o := info.ObjectOf(x)
				return x.Name == "_" || o != nil && o.Pos() >= r.Pos() && o.Pos() < r.End()
			case *ast.SelectorExpr:
				if isPtr(info.TypeOf(x.X)) {
					return false
				}
				e = x.X
			default:
				return false
			}
		}
	}
	byKey := func(e ast.Expr) bool {
		ix, ok := ast.Unparen(e).(*ast.IndexExpr)
		if !ok {
			return false
		}
		id, ok := ast.Unparen(ix.Index).(*ast.Ident)
		return ok && key != nil && info.ObjectOf(id) == key
	}
	integer := func(e ast.Expr) bool {
		b, ok := info.TypeOf(e).Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	sorted := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return false
		}
		found := false
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok || c.Pos() < r.End() || len(c.Args) == 0 {
				return true
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			o, ok := info.Uses[s.Sel].(*types.Func)
			if !ok || o.Pkg() == nil || o.Pkg().Path() != "sort" && o.Pkg().Path() != "slices" {
				return true
			}
			ast.Inspect(c.Args[0], func(m ast.Node) bool {
				if x, ok := m.(*ast.Ident); ok && info.ObjectOf(x) == info.ObjectOf(id) {
					found = true
				}
				return true
			})
			return true
		})
		return found
	}
	var bad ast.Node
	ast.Inspect(r.Body, func(n ast.Node) bool {
		if bad != nil {
			return false
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			for i, l := range n.Lhs {
				if local(l) || byKey(l) {
					continue
				}
				if n.Tok != token.ASSIGN && n.Tok != token.DEFINE && n.Tok != token.QUO_ASSIGN && n.Tok != token.SHL_ASSIGN && n.Tok != token.SHR_ASSIGN && n.Tok != token.REM_ASSIGN && integer(l) {
					continue
				}
				if len(n.Lhs) == len(n.Rhs) {
					if tv := info.Types[n.Rhs[i]]; tv.Value != nil { // the same constant whatever the iteration
						continue
					}
					if c, ok := ast.Unparen(n.Rhs[i]).(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && sorted(l) {
							continue
						}
					}
				}
				bad = n
			}
		case *ast.IncDecStmt:
			if !integer(n.X) {
				bad = n
			}
		case *ast.ReturnStmt:
			for _, x := range n.Results {
				if tv := info.Types[x]; tv.Value == nil && !tv.IsNil() {
					bad = n
				}
			}
		case *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
			bad = n
		case *ast.CallExpr:
			if tv := info.Types[n.Fun]; tv.IsType() {
				return true
			}
			if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := info.Uses[id].(*types.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "min", "max", "make", "new", "append", "panic", "delete":
						return true
					}
				}
			}
			bad = n
		}
		return true
	})
	return bad
}

func init() {
	rules["P13"] = &Rule{name: "determinism", min: 300, run: determinismRule,
		what: "No function of the library reachable from its interface uses randomness, clocks, the environment, addresses as numbers, a select between communications, or a map iteration whose effect depends on the order."}
}
