// mutgen lists small textual mutations of the non-test Go files of a tree, as JSON lines
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type Mut struct {
	File, Func, Desc string
	Line, Start, End int
	New              string
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		if strings.HasSuffix(rel, "hash/ark.go") || strings.Contains(rel, "env.go") || strings.Contains(rel, "testing.go") || strings.Contains(rel, "profil") {
			return nil
		}
		src, _ := os.ReadFile(path)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			return nil
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		pkg := filepath.Dir(rel)
		for _, d := range f.Decls {
			fn := pkg + ".init"
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = pkg + "." + fd.Name.Name
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					fn = pkg + "." + txt(t) + "." + fd.Name.Name
				}
			} else if g := d.(*ast.GenDecl); g.Tok != token.CONST && g.Tok != token.VAR {
				continue
			}
			emit := func(s, e token.Pos, new, desc string) {
				enc.Encode(Mut{rel, fn, desc, fset.Position(s).Line, off(s), off(e), new})
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
						token.LSS: {"<=", "!="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
					}
					for _, a := range alt[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a, "op "+n.Op.String()+" -> "+a)
					}
					switch n.Op {
					case token.LAND, token.LOR:
						emit(n.Pos(), n.End(), "("+txt(n.X)+")", "keep left operand")
						emit(n.Pos(), n.End(), "("+txt(n.Y)+")", "keep right operand")
					case token.ADD, token.SUB:
						emit(n.Pos(), n.End(), "("+txt(n.X)+")", "drop right operand")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.Atoi(n.Value); err == nil {
							emit(n.Pos(), n.End(), strconv.Itoa(v+1), "literal+1")
							if v > 0 {
								emit(n.Pos(), n.End(), strconv.Itoa(v-1), "literal-1")
							}
						}
					}
				case *ast.BlockStmt:
					for i, s := range n.List {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt, *ast.SendStmt, *ast.IfStmt:
							emit(s.Pos(), s.End(), "", "delete "+fmt.Sprintf("%T", s)[5:])
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "", "delete assignment")
							}
						}
						if i+1 < len(n.List) {
							a, b := n.List[i], n.List[i+1]
							_, ok1 := a.(*ast.ExprStmt)
							_, ok2 := b.(*ast.ExprStmt)
							if ok1 && ok2 {
								emit(a.Pos(), b.End(), txt(b)+"\n"+txt(a), "swap statements")
							}
						}
						if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) > 0 {
							if id, ok := r.Results[0].(*ast.Ident); ok && (id.Name == "false" || id.Name == "true") {
								emit(id.Pos(), id.End(), map[string]string{"false": "true", "true": "false"}[id.Name], "negate result")
							}
						}
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "!("+txt(n.Cond)+")", "negate condition")
					if n.Init == nil {
						emit(n.Cond.Pos(), n.Cond.End(), "true || ("+txt(n.Cond)+")", "always")
					}
				case *ast.CallExpr:
					if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
						alt := map[string][]string{"Add": {"Sub"}, "Sub": {"Add"}, "Mul": {"Add"}, "SetOne": {"SetZero"}, "FoldHL": {"FoldHR"}, "FoldHR": {"FoldHL"}, "Square": {"Double"}}
						for _, a := range alt[sel.Sel.Name] {
							emit(sel.Sel.Pos(), sel.Sel.End(), a, sel.Sel.Name+" -> "+a)
						}
					}
					for i := 0; i+1 < len(n.Args); i++ {
						if txt(n.Args[i]) != txt(n.Args[i+1]) {
							emit(n.Args[i].Pos(), n.Args[i+1].End(), txt(n.Args[i+1])+", "+txt(n.Args[i]), "swap arguments")
						}
					}
				case *ast.Ident:
					for _, p := range [][2]string{{"L", "R"}, {"Left", "Right"}} {
						for _, q := range [][2]string{p, {p[1], p[0]}} {
							if strings.HasSuffix(n.Name, q[0]) && len(n.Name) > len(q[0]) {
								emit(n.Pos(), n.End(), strings.TrimSuffix(n.Name, q[0])+q[1], n.Name+" -> other side")
							}
						}
					}
					if n.Name == "L" || n.Name == "R" {
						emit(n.Pos(), n.End(), map[string]string{"L": "R", "R": "L"}[n.Name], "other side")
					}
				case *ast.IndexExpr:
					emit(n.Index.Pos(), n.Index.End(), "("+txt(n.Index)+")+1", "index+1")
				}
				return true
			})
		}
		return nil
	})
}
