// refgen DIR KIND rewrites the non-test Go files of a module in place, everywhere KIND applies, without changing what they do.
// With ONLY=f1,f2 only these functions are rewritten.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

var (
	fset  = token.NewFileSet()
	info  *types.Info
	pkg   *types.Package
	count int
	nTmp  int
	names = map[string]string{} // import path -> name in this file
)

func main() {
	dir, kind := os.Args[1], os.Args[2]
	only := map[string]bool{}
	for _, s := range strings.Split(os.Getenv("ONLY"), ",") {
		if s != "" {
			only[s] = true
		}
	}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles", "./...")
	cmd.Dir = dir
	out, err := cmd.Output()
	if err != nil {
		panic(err)
	}
	exports := map[string]string{}
	type lp struct {
		ImportPath, Export, Dir string
		GoFiles                 []string
	}
	var local []lp
	for dec := json.NewDecoder(bytes.NewReader(out)); ; {
		var p lp
		if dec.Decode(&p) != nil {
			break
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, "gkr-mimc") {
			local = append(local, p)
		}
	}
	for _, p := range local {
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(exports[path]) })
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
			if err != nil {
				panic(err)
			}
			files = append(files, a)
		}
		info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp}
		pkg, err = conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			panic(err)
		}
		for i, f := range files {
			if strings.Contains(p.GoFiles[i], "ark.go") || strings.Contains(p.GoFiles[i], "testing") || strings.Contains(p.GoFiles[i], "env") || strings.Contains(p.GoFiles[i], "profil") {
				continue
			}
			names = map[string]string{}
			for _, s := range f.Imports {
				path := strings.Trim(s.Path.Value, "\"")
				if s.Name != nil {
					names[path] = s.Name.Name
				} else if q, err := imp.Import(path); err == nil {
					names[path] = q.Name()
				}
			}
			before := count
			var decls []ast.Decl
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || len(only) > 0 && !only[fd.Name.Name] {
					decls = append(decls, d)
					continue
				}
				decls = append(decls, rewrite(kind, fd)...)
			}
			f.Decls = decls
			if count == before {
				continue
			}
			var b bytes.Buffer
			if err := format.Node(&b, token.NewFileSet(), f); err != nil {
				panic(err)
			}
			os.WriteFile(filepath.Join(p.Dir, p.GoFiles[i]), b.Bytes(), 0644)
		}
	}
	fmt.Println(kind, count, "places")
}

func tmp(s string) string    { nTmp++; return fmt.Sprintf("%s%d", s, nTmp) }
func id(s string) *ast.Ident { return ast.NewIdent(s) }

// typeExpr writes a type, if every package it names is imported
func typeExpr(t types.Type) ast.Expr {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		n, has := names[p.Path()]
		if !has {
			ok = false
		}
		return n
	})
	if !ok || strings.Contains(s, "untyped") || strings.Contains(s, "invalid") {
		return nil
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil
	}
	return e
}

// clone of an expression, through its text
func clone(e ast.Expr) ast.Expr {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), e)
	c, err := parser.ParseExpr(b.String())
	if err != nil {
		panic(err)
	}
	return c
}

func has(n ast.Node, f func(ast.Node) bool) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil && f(x) {
			found = true
		}
		return !found
	})
	return found
}

func hasCall(n ast.Node) bool {
	return has(n, func(x ast.Node) bool {
		c, ok := x.(*ast.CallExpr)
		if !ok {
			u, ok := x.(*ast.UnaryExpr)
			return ok && u.Op == token.ARROW
		}
		if tv := info.Types[c.Fun]; tv.IsType() || tv.IsBuiltin() {
			return false
		}
		return true
	})
}

// jumps tells whether a body leaves by return, break, continue or goto
func jumps(n ast.Node) bool {
	return has(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			return true
		}
		return false
	})
}

// captured tells whether there is a closure
func captured(n ast.Node) bool {
	return has(n, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok })
}

// assigned tells whether the variable is assigned, or its address taken, in n
func assigned(n ast.Node, o types.Object) bool {
	return has(n, func(x ast.Node) bool {
		is := func(e ast.Expr) bool {
			i, ok := e.(*ast.Ident)
			return ok && info.Uses[i] == o
		}
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if is(l) {
					return true
				}
			}
		case *ast.IncDecStmt:
			return is(x.X)
		case *ast.UnaryExpr:
			return x.Op == token.AND && is(x.X)
		}
		return false
	})
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return terminates(s.List)
	case *ast.IfStmt:
		if s.Else == nil {
			return false
		}
		if b, ok := s.Else.(*ast.BlockStmt); ok {
			return terminates(s.Body.List) && terminates(b.List)
		}
		return terminates(s.Body.List) && terminates([]ast.Stmt{s.Else})
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	}
	return false
}

// lists visits every list of statements, the inner ones first
func lists(n ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			for _, s := range x.List {
				lists(s, f)
			}
			x.List = f(x.List)
			return false
		case *ast.CaseClause:
			for _, s := range x.Body {
				lists(s, f)
			}
			x.Body = f(x.Body)
			return false
		}
		return true
	})
}

func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

// each rewrites statements one by one
func each(body *ast.BlockStmt, f func(ast.Stmt) []ast.Stmt) {
	lists(body, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r := f(s); r != nil {
				count++
				out = append(out, r...)
			} else {
				out = append(out, s)
			}
		}
		return out
	})
}

func isInt(e ast.Expr) bool {
	b, ok := info.TypeOf(e).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFr(e ast.Expr) bool {
	return info.TypeOf(e) != nil && strings.HasSuffix(info.TypeOf(e).String(), "bn256/fr.Element")
}

func rewrite(kind string, fd *ast.FuncDecl) []ast.Decl {
	body := fd.Body
	switch kind {
	case "cmpflip":
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		ast.Inspect(body, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok && !hasCall(b) {
				if o, ok := flip[b.Op]; ok {
					b.X, b.Y, b.Op = b.Y, b.X, o
					count++
				}
			}
			return true
		})
	case "cmpnot":
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
		ast.Inspect(body, func(n ast.Node) bool {
			if s, ok := n.(*ast.IfStmt); ok {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok {
					if o, ok := neg[b.Op]; ok {
						s.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.X, Op: o, Y: b.Y}}}
						count++
					}
				}
			}
			return true
		})
	case "comm":
		ast.Inspect(body, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok && !hasCall(b) && (b.Op == token.ADD || b.Op == token.MUL) && isInt(b) {
				b.X, b.Y = &ast.ParenExpr{X: b.Y}, &ast.ParenExpr{X: b.X}
				count++
			}
			return true
		})
	case "shl": // 1<<n as a helper function
		used := false
		name := tmp("twoTo")
		ast.Inspect(body, func(n ast.Node) bool {
			fix := func(e *ast.Expr) {
				b, ok := (*e).(*ast.BinaryExpr)
				if !ok || b.Op != token.SHL || info.Types[b].Value != nil {
					return
				}
				if l, ok := b.X.(*ast.BasicLit); ok && l.Value == "1" && types.Identical(info.TypeOf(b.Y), types.Typ[types.Int]) && types.Identical(info.TypeOf(b), types.Typ[types.Int]) {
					*e = &ast.CallExpr{Fun: id(name), Args: []ast.Expr{b.Y}}
					used = true
					count++
				}
			}
			switch x := n.(type) {
			case *ast.BinaryExpr:
				fix(&x.X)
				fix(&x.Y)
			case *ast.ParenExpr:
				fix(&x.X)
			case *ast.CallExpr:
				for i := range x.Args {
					fix(&x.Args[i])
				}
			case *ast.AssignStmt:
				for i := range x.Rhs {
					fix(&x.Rhs[i])
				}
			case *ast.IndexExpr:
				fix(&x.Index)
			}
			return true
		})
		if used {
			p, _ := parser.ParseFile(token.NewFileSet(), "", "package p\nfunc "+name+"(n int) int { return 1 << n }", 0)
			return []ast.Decl{fd, p.Decls[0]}
		}
	case "ifinvert":
		ast.Inspect(body, func(n ast.Node) bool {
			if s, ok := n.(*ast.IfStmt); ok {
				if e, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}}
					s.Body, s.Else = e, s.Body
					count++
				}
			}
			return true
		})
	case "nested":
		ast.Inspect(body, func(n ast.Node) bool {
			if s, ok := n.(*ast.IfStmt); ok && s.Else == nil {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					s.Cond = b.X
					s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
					count++
				} else if ok && b.Op == token.LOR && terminates(s.Body.List) {
					s.Cond = b.X
					s.Else = &ast.IfStmt{Cond: b.Y, Body: s.Body}
					count++
				}
			}
			return true
		})
	case "forwhile":
		each(body, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Init == nil || f.Post == nil || captured(f.Body) || has(f.Body, func(x ast.Node) bool { b, ok := x.(*ast.BranchStmt); return ok && b.Tok == token.CONTINUE }) {
				return nil
			}
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{f.Init, &ast.ForStmt{Cond: f.Cond, Body: &ast.BlockStmt{List: append([]ast.Stmt{f.Body}, f.Post)}}}}}
		})
	case "forbreak":
		each(body, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Cond == nil {
				return nil
			}
			c := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: f.Cond}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
			return []ast.Stmt{&ast.ForStmt{Init: f.Init, Post: f.Post, Body: &ast.BlockStmt{List: append([]ast.Stmt{c}, f.Body.List...)}}}
		})
	case "forbound": // the bound in a variable
		each(body, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Init == nil {
				return nil
			}
			c, ok := f.Cond.(*ast.BinaryExpr)
			if !ok || info.Types[c.Y].Value != nil || hasCall(c.Y) {
				return nil
			}
			bad := has(c.Y, func(x ast.Node) bool {
				i, ok := x.(*ast.Ident)
				if !ok || info.Uses[i] == nil {
					return false
				}
				if _, ok := info.Uses[i].(*types.Var); !ok {
					return false
				}
				return assigned(f, info.Uses[i]) || info.Uses[i].Pos() >= f.Pos()
			})
			if bad || !types.Identical(info.TypeOf(c.Y), types.Typ[types.Int]) || has(c.Y, func(x ast.Node) bool { _, ok := x.(*ast.IndexExpr); return ok }) {
				return nil
			}
			n := tmp("end")
			st := define(n, c.Y)
			c.Y = id(n)
			return []ast.Stmt{st, f}
		})
	case "rangeval":
		each(body, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.RangeStmt)
			if !ok || f.Value == nil || f.Tok != token.DEFINE || hasCall(f.X) {
				return nil
			}
			if _, ok := info.TypeOf(f.X).Underlying().(*types.Slice); !ok {
				return nil
			}
			v := f.Value.(*ast.Ident)
			if v.Name == "_" || written(f.Body, f.X) {
				return nil
			}
			if f.Key == nil || f.Key.(*ast.Ident).Name == "_" {
				f.Key = id(tmp("i"))
			}
			f.Value = nil
			f.Body.List = append([]ast.Stmt{define(v.Name, &ast.IndexExpr{X: clone(f.X), Index: id(f.Key.(*ast.Ident).Name)})}, f.Body.List...)
			return []ast.Stmt{f}
		})
	case "rangefor":
		each(body, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.RangeStmt)
			if !ok || f.Tok != token.DEFINE || hasCall(f.X) || captured(f.Body) {
				return nil
			}
			if _, ok := info.TypeOf(f.X).Underlying().(*types.Slice); !ok || written(f.Body, f.X) {
				return nil
			}
			if k, ok := f.Key.(*ast.Ident); ok && k.Name != "_" && assigned(f.Body, info.Defs[k]) {
				return nil
			}
			k := tmp("i")
			if f.Key != nil && f.Key.(*ast.Ident).Name != "_" {
				k = f.Key.(*ast.Ident).Name
			}
			l := f.Body.List
			if f.Value != nil && f.Value.(*ast.Ident).Name != "_" {
				l = append([]ast.Stmt{define(f.Value.(*ast.Ident).Name, &ast.IndexExpr{X: clone(f.X), Index: id(k)})}, l...)
			}
			return []ast.Stmt{&ast.ForStmt{Init: define(k, &ast.BasicLit{Kind: token.INT, Value: "0"}),
				Cond: &ast.BinaryExpr{X: id(k), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{clone(f.X)}}},
				Post: &ast.IncDecStmt{X: id(k), Tok: token.INC}, Body: &ast.BlockStmt{List: l}}}
		})
	case "forrange": // for i := 0; i < len(x); i++ as for i := range x
		each(body, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Init == nil || f.Cond == nil || captured(f.Body) {
				return nil
			}
			in, ok := f.Init.(*ast.AssignStmt)
			c, ok2 := f.Cond.(*ast.BinaryExpr)
			if !ok || !ok2 || len(in.Lhs) != 1 || c.Op != token.LSS {
				return nil
			}
			l, ok := c.Y.(*ast.CallExpr)
			if !ok {
				return nil
			}
			fi, ok := l.Fun.(*ast.Ident)
			z, ok2 := in.Rhs[0].(*ast.BasicLit)
			if !ok || !ok2 || fi.Name != "len" || z.Value != "0" || written(f.Body, l.Args[0]) || assigned(f.Body, info.Defs[in.Lhs[0].(*ast.Ident)]) {
				return nil
			}
			return []ast.Stmt{&ast.RangeStmt{Key: in.Lhs[0], Tok: token.DEFINE, X: l.Args[0], Body: f.Body}}
		})
	case "tempcond":
		each(body, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.IfStmt)
			if !ok || f.Init != nil {
				return nil
			}
			n := tmp("ok")
			st := define(n, f.Cond)
			f.Cond = id(n)
			return []ast.Stmt{st, f}
		})
	case "tempret":
		each(body, func(s ast.Stmt) []ast.Stmt {
			r, ok := s.(*ast.ReturnStmt)
			if !ok || len(r.Results) == 0 {
				return nil
			}
			var out []ast.Stmt
			var res []ast.Expr
			for _, e := range r.Results {
				if _, ok := info.TypeOf(e).(*types.Tuple); ok {
					return nil
				}
				tv := info.Types[e]
				if tv.IsNil() || tv.Value != nil {
					res = append(res, e)
					continue
				}
				n := tmp("r")
				out = append(out, define(n, e))
				res = append(res, id(n))
			}
			if out == nil {
				return nil
			}
			r.Results = res
			return append(out, r)
		})
	case "incr":
		each(body, func(s ast.Stmt) []ast.Stmt {
			i, ok := s.(*ast.IncDecStmt)
			if !ok {
				return nil
			}
			if _, ok := i.X.(*ast.Ident); !ok {
				return nil
			}
			op := token.ADD
			if i.Tok == token.DEC {
				op = token.SUB
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{i.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: clone(i.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}}
		})
		ast.Inspect(body, func(n ast.Node) bool {
			f, ok := n.(*ast.ForStmt)
			if ok && f.Post != nil {
				if i, ok := f.Post.(*ast.IncDecStmt); ok {
					t := token.ADD_ASSIGN
					if i.Tok == token.DEC {
						t = token.SUB_ASSIGN
					}
					f.Post = &ast.AssignStmt{Lhs: []ast.Expr{i.X}, Tok: t, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}
					count++
				}
			}
			return true
		})
	case "vardecl":
		each(body, func(s ast.Stmt) []ast.Stmt {
			a, ok := s.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
				return nil
			}
			t := typeExpr(info.TypeOf(a.Rhs[0]))
			if t == nil {
				return nil
			}
			return []ast.Stmt{&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{a.Lhs[0].(*ast.Ident)}, Type: t}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{id(a.Lhs[0].(*ast.Ident).Name)}, Tok: token.ASSIGN, Rhs: a.Rhs}}
		})
	case "argtemp":
		args := func(c *ast.CallExpr) []ast.Stmt {
			if tv := info.Types[c.Fun]; tv.IsType() {
				return nil
			}
			if i, ok := c.Fun.(*ast.Ident); ok && info.Types[i].IsBuiltin() {
				return nil
			}
			var out []ast.Stmt
			for k, a := range c.Args {
				switch a.(type) {
				case *ast.Ident, *ast.FuncLit, *ast.BasicLit:
					continue
				}
				tv := info.Types[a]
				if tv.Value != nil || tv.IsNil() || tv.IsType() {
					continue
				}
				n := tmp("a")
				out = append(out, define(n, a))
				c.Args[k] = id(n)
			}
			return out
		}
		each(body, func(s ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			switch x := s.(type) {
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					out = args(c)
				}
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 {
					if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
						out = args(c)
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					if c, ok := x.Results[0].(*ast.CallExpr); ok {
						out = args(c)
					}
				}
			}
			if out == nil {
				return nil
			}
			return append(out, s)
		})
	case "recvtemp": // a[i].Op(...) through a pointer
		each(body, func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ExprStmt)
			if !ok {
				return nil
			}
			c, ok := x.X.(*ast.CallExpr)
			if !ok {
				return nil
			}
			sel, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return nil
			}
			ix, ok := sel.X.(*ast.IndexExpr)
			if !ok || !info.Types[ix].Addressable() {
				return nil
			}
			if _, ok := info.TypeOf(ix).Underlying().(*types.Slice); ok {
				return nil
			}
			if _, ok := info.TypeOf(ix).Underlying().(*types.Pointer); ok {
				return nil
			}
			if _, ok := info.TypeOf(ix).Underlying().(*types.Interface); ok {
				return nil
			}
			n := tmp("p")
			sel.X = id(n)
			return []ast.Stmt{define(n, &ast.UnaryExpr{Op: token.AND, X: ix}), s}
		})
	case "viatemp", "viainplace": // z.Op(x, y) in a new variable; z.Op(x, y) as z = *x; z.Op(z, y)
		each(body, func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ExprStmt)
			if !ok {
				return nil
			}
			c, ok := x.X.(*ast.CallExpr)
			if !ok {
				return nil
			}
			sel, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || !isFr(sel.X) || len(c.Args) != 2 || hasCall(sel.X) || (sel.Sel.Name != "Add" && sel.Sel.Name != "Mul" && sel.Sel.Name != "Sub") {
				return nil
			}
			if kind == "viainplace" {
				a, ok := c.Args[0].(*ast.UnaryExpr)
				b, ok2 := c.Args[1].(*ast.UnaryExpr)
				if !ok || !ok2 || a.Op != token.AND || b.Op != token.AND || text(b.X) == text(sel.X) || text(a.X) == text(sel.X) {
					return nil
				}
				// z and y are different variables, or entries of different arrays
				if _, ok := b.X.(*ast.Ident); !ok {
					if _, ok := sel.X.(*ast.Ident); !ok {
						return nil
					}
				}
				as := &ast.AssignStmt{Lhs: []ast.Expr{clone(sel.X)}, Tok: token.ASSIGN, Rhs: []ast.Expr{a.X}}
				c.Args[0] = &ast.UnaryExpr{Op: token.AND, X: clone(sel.X)}
				return []ast.Stmt{as, s}
			}
			if _, ok := info.TypeOf(sel.X).(*types.Pointer); ok {
				return nil
			}
			t := typeExpr(info.TypeOf(sel.X))
			if t == nil {
				return nil
			}
			n := tmp("t")
			d := &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: t}}}}
			as := &ast.AssignStmt{Lhs: []ast.Expr{sel.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}}
			sel.X = id(n)
			return []ast.Stmt{d, s, as}
		})
	case "frcomm": // Add and Mul with their operands exchanged
		ast.Inspect(body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 2 {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && isFr(s.X) && (s.Sel.Name == "Add" || s.Sel.Name == "Mul") {
					c.Args[0], c.Args[1] = c.Args[1], c.Args[0]
					count++
				}
			}
			return true
		})
	case "frhelper": // z.Add(x, y) as a function of two values
		need := map[string]bool{}
		each(body, func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ExprStmt)
			if !ok {
				return nil
			}
			c, ok := x.X.(*ast.CallExpr)
			if !ok {
				return nil
			}
			sel, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || !isFr(sel.X) || len(c.Args) != 2 || hasCall(sel.X) || (sel.Sel.Name != "Add" && sel.Sel.Name != "Mul" && sel.Sel.Name != "Sub") || typeExpr(info.TypeOf(sel.X)) == nil {
				return nil
			}
			need[sel.Sel.Name] = true
			var v []ast.Expr
			for _, a := range c.Args {
				if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND {
					v = append(v, u.X)
				} else {
					v = append(v, &ast.StarExpr{X: a})
				}
			}
			lhs := sel.X
			if _, ok := info.TypeOf(sel.X).(*types.Pointer); ok {
				lhs = &ast.StarExpr{X: sel.X}
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.CallExpr{Fun: id("of" + sel.Sel.Name + fd.Name.Name + fmt.Sprint(fd.Pos())), Args: v}}}}
		})
		out := []ast.Decl{fd}
		for op := range need {
			p, _ := parser.ParseFile(token.NewFileSet(), "", "package p\nfunc of"+op+fd.Name.Name+fmt.Sprint(fd.Pos())+"(x, y fr.Element) fr.Element { var z fr.Element; z."+op+"(&x, &y); return z }", 0)
			out = append(out, p.Decls[0])
		}
		return out
	case "earlyelse":
		lists(body, func(l []ast.Stmt) []ast.Stmt {
			for i := len(l) - 2; i >= 0; i-- {
				s, ok := l[i].(*ast.IfStmt)
				if !ok || s.Else != nil || !terminates(s.Body.List) {
					continue
				}
				s.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}
				l = l[:i+1]
				count++
			}
			return l
		})
	case "closurebody":
		ast.Inspect(body, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch f := n.(type) {
			case *ast.ForStmt:
				b = f.Body
			case *ast.RangeStmt:
				b = f.Body
			}
			if b != nil && !jumps(b) && !captured(b) {
				ast.Inspect(b, func(n ast.Node) bool { return true })
				b.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: b.List}}}}}
				count++
				return false
			}
			return true
		})
	case "paramcopy":
		var l []ast.Stmt
		for _, p := range fd.Type.Params.List {
			for _, n := range p.Names {
				if n.Name == "_" || !has(body, func(x ast.Node) bool { i, ok := x.(*ast.Ident); return ok && info.Uses[i] == info.Defs[n] }) {
					continue
				}
				l = append(l, define(n.Name, id(n.Name)))
			}
		}
		if l != nil {
			count++
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.BlockStmt{List: append(l, body.List...)}}}
			if fd.Type.Results != nil && !terminates(body.List) {
				fd.Body.List = append(fd.Body.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: "\"unreachable\""}}}})
			}
		}
	case "wrapper":
		if fd.Name.Name == "init" || fd.Name.Name == "main" {
			break
		}
		for _, p := range fd.Type.Params.List {
			if len(p.Names) == 0 {
				return []ast.Decl{fd}
			}
		}
		var args []ast.Expr
		variadic := false
		for _, p := range fd.Type.Params.List {
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				variadic = true
			}
			for i, n := range p.Names {
				if n.Name == "_" {
					p.Names[i] = id(tmp("unused"))
				}
				args = append(args, id(p.Names[i].Name))
			}
		}
		name := "do" + strings.ToUpper(fd.Name.Name[:1]) + fd.Name.Name[1:]
		var fun ast.Expr = id(name)
		if fd.Recv != nil {
			if len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_" {
				fd.Recv.List[0].Names = []*ast.Ident{id("recv")}
			}
			fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(name)}
		}
		c := &ast.CallExpr{Fun: fun, Args: args}
		if variadic {
			c.Ellipsis = 1
		}
		var st ast.Stmt = &ast.ExprStmt{X: c}
		if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
			st = &ast.ReturnStmt{Results: []ast.Expr{c}}
		}
		count++
		inner := *fd
		inner.Name = id(name)
		outer := &ast.FuncDecl{Recv: fd.Recv, Name: fd.Name, Type: fd.Type, Body: &ast.BlockStmt{List: []ast.Stmt{st}}}
		return []ast.Decl{outer, &inner}
	case "extract": // the body of an outermost loop as a function literal kept in a variable
		each(body, func(s ast.Stmt) []ast.Stmt {
			var b *ast.BlockStmt
			var k *ast.Ident
			switch f := s.(type) {
			case *ast.ForStmt:
				b = f.Body
				if a, ok := f.Init.(*ast.AssignStmt); ok && len(a.Lhs) == 1 && a.Tok == token.DEFINE {
					k = a.Lhs[0].(*ast.Ident)
				}
			case *ast.RangeStmt:
				b = f.Body
				if f.Value != nil {
					return nil
				}
				k, _ = f.Key.(*ast.Ident)
			}
			if b == nil || k == nil || k.Name == "_" || jumps(b) || captured(b) || info.Defs[k] == nil || assigned(b, info.Defs[k]) || !types.Identical(info.Defs[k].Type(), types.Typ[types.Int]) {
				return nil
			}
			n := tmp("step")
			st := define(n, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id(k.Name)}, Type: id("int")}}}}, Body: &ast.BlockStmt{List: b.List}})
			b.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id(n), Args: []ast.Expr{id(k.Name)}}}}
			return []ast.Stmt{st, s}
		})
	case "offset": // loops from 1
		each(body, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Init == nil || f.Post == nil || captured(f.Body) {
				return nil
			}
			a, ok := f.Init.(*ast.AssignStmt)
			inc, ok2 := f.Post.(*ast.IncDecStmt)
			if !ok || !ok2 || len(a.Lhs) != 1 || a.Tok != token.DEFINE || inc.Tok != token.INC {
				return nil
			}
			k := a.Lhs[0].(*ast.Ident)
			c, ok := f.Cond.(*ast.BinaryExpr)
			if !ok || assigned(f.Body, info.Defs[k]) || text(c.X) != k.Name {
				return nil
			}
			j := tmp("j")
			one := func() ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: "1"} }
			f.Init = define(j, &ast.BinaryExpr{X: a.Rhs[0], Op: token.ADD, Y: one()})
			c.X = &ast.BinaryExpr{X: id(j), Op: token.SUB, Y: one()}
			f.Post = &ast.IncDecStmt{X: id(j), Tok: token.INC}
			f.Body.List = append([]ast.Stmt{define(k.Name, &ast.BinaryExpr{X: id(j), Op: token.SUB, Y: one()}), use(k.Name)}, f.Body.List...)
			return []ast.Stmt{f}
		})
	case "makeappend": // x := make([]T, n) as append of a new slice
		each(body, func(s ast.Stmt) []ast.Stmt {
			a, ok := s.(*ast.AssignStmt)
			if !ok || len(a.Rhs) != 1 {
				return nil
			}
			c, ok := a.Rhs[0].(*ast.CallExpr)
			if !ok || text(c.Fun) != "make" || len(c.Args) != 2 {
				return nil
			}
			if _, ok := info.TypeOf(c).Underlying().(*types.Slice); !ok {
				return nil
			}
			c.Args = append(c.Args, clone(c.Args[1]))
			if hasCall(c.Args[1]) {
				c.Args = c.Args[:2]
				return nil
			}
			return []ast.Stmt{s}
		})
	case "indextemp": // the element of a nested array in a variable: x[i][j] as row := x[i]; row[j]
		each(body, func(s ast.Stmt) []ast.Stmt {
			switch s.(type) {
			case *ast.ExprStmt, *ast.AssignStmt:
			default:
				return nil
			}
			if captured(s) {
				return nil
			}
			var out []ast.Stmt
			ast.Inspect(s, func(n ast.Node) bool {
				if x, ok := n.(*ast.IndexExpr); ok && out == nil {
					if y, ok := x.X.(*ast.IndexExpr); ok && !hasCall(y) {
						if _, ok := info.TypeOf(y).Underlying().(*types.Slice); ok {
							n := tmp("row")
							out = []ast.Stmt{define(n, y)}
							x.X = id(n)
						}
					}
				}
				return true
			})
			if out == nil {
				return nil
			}
			return append(out, s)
		})
	case "sliceexpr":
		ast.Inspect(body, func(n ast.Node) bool {
			if s, ok := n.(*ast.SliceExpr); ok && !s.Slice3 && !hasCall(s) {
				if s.Low == nil {
					s.Low = &ast.BasicLit{Kind: token.INT, Value: "0"}
					count++
				}
				if s.High == nil {
					s.High = &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{clone(s.X)}}
					count++
				}
			}
			return true
		})
	case "shlmul":
		ast.Inspect(body, func(n ast.Node) bool {
			b, ok := n.(*ast.BinaryExpr)
			if !ok || !isInt(b) || info.Types[b].Value != nil {
				return true
			}
			if l, ok := b.X.(*ast.BasicLit); ok && l.Value == "2" && b.Op == token.MUL {
				b.X, b.Y, b.Op = &ast.ParenExpr{X: b.Y}, &ast.BasicLit{Kind: token.INT, Value: "1"}, token.SHL
				count++
			} else if l, ok := b.Y.(*ast.BasicLit); ok && l.Value == "2" && b.Op == token.QUO {
				b.X, b.Y, b.Op = &ast.ParenExpr{X: b.X}, &ast.BasicLit{Kind: token.INT, Value: "1"}, token.SHR
				count++
			}
			return true
		})
	case "switchif":
		each(body, func(s ast.Stmt) []ast.Stmt {
			w, ok := s.(*ast.SwitchStmt)
			if !ok || w.Init != nil || w.Tag != nil && hasCall(w.Tag) || has(w.Body, func(x ast.Node) bool { _, ok := x.(*ast.BranchStmt); return ok }) {
				return nil
			}
			var out, last *ast.IfStmt
			var def *ast.BlockStmt
			for _, c := range w.Body.List {
				cc := c.(*ast.CaseClause)
				if cc.List == nil {
					def = &ast.BlockStmt{List: cc.Body}
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					if w.Tag != nil {
						e = &ast.BinaryExpr{X: clone(w.Tag), Op: token.EQL, Y: e}
					}
					if cond == nil {
						cond = e
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: e}
					}
				}
				f := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
				if last == nil {
					out = f
				} else {
					last.Else = f
				}
				last = f
			}
			if last == nil {
				return nil
			}
			if def != nil {
				last.Else = def
			}
			return []ast.Stmt{out}
		})
	case "goclosure":
		each(body, func(s ast.Stmt) []ast.Stmt {
			g, ok := s.(*ast.GoStmt)
			if !ok {
				return nil
			}
			if _, ok := g.Call.Fun.(*ast.FuncLit); ok {
				return nil
			}
			var out []ast.Stmt
			c := &ast.CallExpr{Fun: g.Call.Fun, Ellipsis: g.Call.Ellipsis}
			for _, a := range g.Call.Args {
				n := tmp("g")
				out = append(out, define(n, a))
				c.Args = append(c.Args, id(n))
			}
			g.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}}
			return append(out, g)
		})
	case "continue":
		ast.Inspect(body, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch f := n.(type) {
			case *ast.ForStmt:
				b = f.Body
			case *ast.RangeStmt:
				b = f.Body
			}
			if b != nil && len(b.List) > 0 {
				if s, ok := b.List[len(b.List)-1].(*ast.IfStmt); ok && s.Else == nil && s.Init == nil {
					b.List = append(append(b.List[:len(b.List)-1:len(b.List)-1], &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}), s.Body.List...)
					count++
				}
			}
			return true
		})
	case "valtemp": // x.Op(&a[i], &b[j]) on copies of the operands
		each(body, func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ExprStmt)
			if !ok {
				return nil
			}
			c, ok := x.X.(*ast.CallExpr)
			if !ok {
				return nil
			}
			sel, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || !isFr(sel.X) || hasCall(sel.X) {
				return nil
			}
			var out []ast.Stmt
			for k, a := range c.Args {
				if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND {
					if ix, ok := u.X.(*ast.IndexExpr); ok {
						n := tmp("v")
						out = append(out, define(n, ix))
						c.Args[k] = &ast.UnaryExpr{Op: token.AND, X: id(n)}
					}
				}
			}
			if out == nil {
				return nil
			}
			return append(out, s)
		})
	case "appendcopy": // x = append([]T{}, y...) as make and copy
		each(body, func(s ast.Stmt) []ast.Stmt {
			a, ok := s.(*ast.AssignStmt)
			if !ok || len(a.Rhs) != 1 || len(a.Lhs) != 1 {
				return nil
			}
			c, ok := a.Rhs[0].(*ast.CallExpr)
			if !ok || text(c.Fun) != "append" || len(c.Args) != 2 || !c.Ellipsis.IsValid() || hasCall(c.Args[1]) {
				return nil
			}
			l, ok := c.Args[0].(*ast.CompositeLit)
			if !ok || len(l.Elts) > 0 {
				return nil
			}
			src := c.Args[1]
			n := tmp("src")
			a.Rhs[0] = &ast.CallExpr{Fun: id("make"), Args: []ast.Expr{l.Type, &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(n)}}}}
			return []ast.Stmt{define(n, src), s, &ast.ExprStmt{X: &ast.CallExpr{Fun: id("copy"), Args: []ast.Expr{clone(a.Lhs[0]), id(n)}}}}
		})
	case "swapdefs": // adjacent definitions that do not use one another
		lists(body, func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(l); i++ {
				a, ok := l[i].(*ast.AssignStmt)
				b, ok2 := l[i+1].(*ast.AssignStmt)
				if !ok || !ok2 || a.Tok != token.DEFINE || b.Tok != token.DEFINE || hasCall(a) && hasCall(b) {
					continue
				}
				uses := false
				for _, x := range a.Lhs {
					o := info.Defs[x.(*ast.Ident)]
					if o == nil {
						if x.(*ast.Ident).Name == "_" {
							continue
						}
						uses = true
						continue
					}
					uses = uses || has(b, func(n ast.Node) bool { i, ok := n.(*ast.Ident); return ok && info.Uses[i] == o })
				}
				for _, x := range b.Lhs {
					o := info.Defs[x.(*ast.Ident)]
					if o == nil && x.(*ast.Ident).Name != "_" {
						uses = true
					}
				}
				if !uses {
					l[i], l[i+1] = l[i+1], l[i]
					count++
					i++
				}
			}
			return l
		})
	case "fieldtemp": // slices in fields, read before a loop
		each(body, func(s ast.Stmt) []ast.Stmt {
			var b ast.Node
			switch f := s.(type) {
			case *ast.ForStmt:
				b = f.Body
			case *ast.RangeStmt:
				b = f.Body
			}
			if b == nil || captured(s) {
				return nil
			}
			var out []ast.Stmt
			done := map[string]string{}
			bad := func(x *ast.SelectorExpr) bool {
				var root ast.Expr = x
				for {
					if y, ok := root.(*ast.SelectorExpr); ok {
						root = y.X
						continue
					}
					break
				}
				r, ok := root.(*ast.Ident)
				if !ok {
					return true
				}
				o, ok := info.Uses[r].(*types.Var)
				if !ok || o.Pos() >= s.Pos() && o.Pos() < s.End() || written(b, x) || o.Parent() == pkg.Scope() {
					return true
				}
				// a method or a function may change the field
				return has(b, func(n ast.Node) bool {
					c, ok := n.(*ast.CallExpr)
					if !ok {
						return false
					}
					if sel, ok := c.Fun.(*ast.SelectorExpr); ok && has(sel.X, func(m ast.Node) bool { i, ok := m.(*ast.Ident); return ok && info.Uses[i] == o }) && !isFr(sel.X) {
						return true
					}
					for _, a := range c.Args {
						if i, ok := a.(*ast.Ident); ok && info.Uses[i] == o {
							return true
						}
					}
					return false
				})
			}
			ast.Inspect(b, func(n ast.Node) bool {
				fix := func(e *ast.Expr) {
					x, ok := (*e).(*ast.SelectorExpr)
					if !ok || info.Selections[x] == nil || info.Selections[x].Kind() != types.FieldVal {
						return
					}
					if _, ok := info.TypeOf(x).Underlying().(*types.Slice); !ok || bad(x) {
						return
					}
					t := text(x)
					if done[t] == "" {
						done[t] = tmp("tab")
						out = append(out, define(done[t], x))
					}
					*e = id(done[t])
				}
				switch x := n.(type) {
				case *ast.IndexExpr:
					fix(&x.X)
				case *ast.CallExpr:
					for i := range x.Args {
						fix(&x.Args[i])
					}
				}
				return true
			})
			if out == nil {
				return nil
			}
			return append(out, s)
		})
	default:
		panic("unknown kind " + kind)
	}
	return []ast.Decl{fd}
}

func use(n string) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}}
}

func text(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), n)
	return b.String()
}

// written tells whether b may change the slice x is (not its entries), or its entries when its values are used
func written(b ast.Node, x ast.Expr) bool {
	t := text(x)
	return has(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if s := text(l); strings.HasPrefix(t, s) || strings.HasPrefix(s, t+"[") {
					return true
				}
			}
		case *ast.UnaryExpr:
			return n.Op == token.AND && strings.HasPrefix(t, text(n.X))
		}
		return false
	})
}
