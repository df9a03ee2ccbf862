package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Loading: the sources of /repo and of /verif/spec are parsed and type checked.
// The dependencies come from the compiler's export data.

type Package struct {
	path  string
	files []*ast.File
	info  *types.Info
	tpkg  *types.Package
}

type Program struct {
	fset  *token.FileSet
	pkgs  map[string]*Package
	funcs map[*types.Func]*FuncDecl
	byKey map[string]*FuncDecl
	repo  string
	nFile int
	// the variables of a loop are shared by its iterations (before go 1.22)
	sharedLoopVars bool
}

type FuncDecl struct {
	decl *ast.FuncDecl
	pkg  *Package
	obj  *types.Func
	// a specification that no longer fits the code: why
	broken string
}

const modPath = "gkr-mimc"

func loadProgram(repo, spec string) (*Program, error) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Module,Error,DepsErrors", "./...")
	cmd.Dir = repo
	// the environment of /opt/vp/env.sh
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.27.3/bin/go"); err == nil {
		path = "/opt/veriftools/go1.27.3/bin:" + path
		cmd.Path = "/opt/veriftools/go1.27.3/bin/go"
		cmd.Err = nil
	}
	cmd.Env = append(os.Environ(), "PATH="+path, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	type lp struct {
		ImportPath, Export, Dir string
		GoFiles                 []string
		Error                   *struct{ Err string }
	}
	exports := map[string]string{}
	var local []lp
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p lp
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			if p.Error != nil {
				return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
			}
			local = append(local, p) // dependencies come first
		}
	}
	prog := &Program{fset: token.NewFileSet(), pkgs: map[string]*Package{}, funcs: map[*types.Func]*FuncDecl{}, byKey: map[string]*FuncDecl{}, repo: repo}
	gc := importer.ForCompiler(prog.fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	prog.sharedLoopVars = goBefore122(repo)
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := prog.pkgs[path]; ok {
			return p.tpkg, nil
		}
		return gc.Import(path)
	})
	check := func(path string, files []string) error {
		p := &Package{path: path}
		for _, f := range files {
			a, err := parser.ParseFile(prog.fset, f, nil, parser.SkipObjectResolution|parser.ParseComments)
			if err != nil {
				return err
			}
			flatElse(a)
			leadingBreaks(a)
			p.files = append(p.files, a)
			prog.nFile++
		}
		p.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		}
		var errs []types.Error
		conf := types.Config{Importer: imp, GoVersion: "go1.21"}
		if strings.HasPrefix(path, "verifspec/") {
			// an error breaks the functions of the specification it is in, not the others
			conf.Error = func(err error) {
				if e, ok := err.(types.Error); ok {
					errs = append(errs, e)
				}
			}
		}
		tp, err := conf.Check(path, prog.fset, p.files, p.info)
		if err != nil && (tp == nil || len(errs) == 0) {
			return err
		}
		p.tpkg = tp
		prog.pkgs[path] = p
		for _, f := range p.files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				o, ok := p.info.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				x := &FuncDecl{decl: fd, pkg: p, obj: o}
				for _, e := range errs {
					if e.Soft {
						continue
					}
					in := false
					for _, f := range p.files {
						for _, d := range f.Decls {
							if d, ok := d.(*ast.FuncDecl); ok && d.Pos() <= e.Pos && e.Pos < d.End() {
								in = true
							}
						}
					}
					if !in || fd.Pos() <= e.Pos && e.Pos < fd.End() {
						x.broken = e.Error()
					}
				}
				prog.funcs[o] = x
				prog.byKey[funcKey(o)] = x
			}
		}
		return nil
	}
	for _, p := range local {
		var fs []string
		for _, f := range p.GoFiles {
			fs = append(fs, filepath.Join(p.Dir, f))
		}
		if len(fs) == 0 {
			continue
		}
		if err := check(p.ImportPath, fs); err != nil {
			return nil, err
		}
	}
	// the reference definitions: /verif/spec/<name>/*.go, package "verifspec/<name>"; sym comes first
	dirs, _ := filepath.Glob(filepath.Join(spec, "*"))
	sort.Slice(dirs, func(i, j int) bool {
		a, b := filepath.Base(dirs[i]), filepath.Base(dirs[j])
		if (a == "sym") != (b == "sym") {
			return a == "sym"
		}
		return a < b
	})
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		sort.Strings(fs)
		if len(fs) == 0 {
			continue
		}
		if err := check("verifspec/"+filepath.Base(d), fs); err != nil {
			return nil, err
		}
	}
	return prog, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// funcKey is the name under which functions are designated: pkg.Func or pkg.(Type).Method
func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pkg := ""
	if f.Pkg() != nil {
		pkg = strings.TrimPrefix(f.Pkg().Path(), modPath+"/")
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n := "?"
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			n = nt.Obj().Name()
		} else {
			n = types.TypeString(t, nil)
		}
		return pkg + "." + n + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

func (p *Program) pos(n token.Pos) string {
	q := p.fset.Position(n)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// goBefore122 tells whether go.mod asks for the language before go 1.22
func goBefore122(repo string) bool {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return true
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			v := strings.Split(f[1], ".")
			if len(v) < 2 {
				return false
			}
			major, _ := strconv.Atoi(v[0])
			minor, _ := strconv.Atoi(v[1])
			return major == 1 && minor < 22
		}
	}
	return true
}

// leadingBreaks writes for init; ; post { if !c { break }; ... } as for init; c; post { ... }
func leadingBreaks(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.ForStmt)
		if !ok || s.Cond != nil || len(s.Body.List) == 0 {
			return true
		}
		i, ok := s.Body.List[0].(*ast.IfStmt)
		if !ok || i.Init != nil || i.Else != nil || len(i.Body.List) != 1 {
			return true
		}
		b, ok := i.Body.List[0].(*ast.BranchStmt)
		if !ok || b.Tok != token.BREAK || b.Label != nil {
			return true
		}
		s.Cond = negation(i.Cond)
		s.Body.List = s.Body.List[1:]
		return true
	})
}

func negation(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return negation(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return ast.Unparen(x.X)
		}
	case *ast.BinaryExpr:
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
		if o, ok := neg[x.Op]; ok {
			return &ast.BinaryExpr{X: x.X, OpPos: x.OpPos, Op: o, Y: x.Y}
		}
	}
	return &ast.UnaryExpr{OpPos: e.Pos(), Op: token.NOT, X: &ast.ParenExpr{Lparen: e.Pos(), X: e, Rparen: e.End()}}
}

// flatElse writes if c { ...; return } else { B } as if c { ...; return }; { B }: what comes after a way out needs no
// else. A branch without a way out before one that has one is written the other way round.
func flatElse(f *ast.File) {
	var flat func(list []ast.Stmt) []ast.Stmt
	flat = func(list []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range list {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else == nil {
				out = append(out, s)
				continue
			}
			cond, then, rest := i.Cond, i.Body, i.Else
			if !waysOut(then) {
				e, ok := rest.(*ast.BlockStmt)
				if !ok || !waysOut(e) {
					out = append(out, s)
					continue
				}
				cond, then, rest = negation(cond), e, then
			}
			if b, ok := rest.(*ast.BlockStmt); !ok {
				rest = &ast.BlockStmt{Lbrace: rest.Pos(), Rbrace: rest.End(), List: flat([]ast.Stmt{rest})}
			} else {
				b.List = flat(b.List)
			}
			first := &ast.IfStmt{If: i.If, Cond: cond, Body: then}
			if i.Init == nil {
				out = append(out, first, rest)
			} else {
				out = append(out, &ast.BlockStmt{Lbrace: i.Pos(), Rbrace: i.End(), List: []ast.Stmt{i.Init, first, rest}})
			}
		}
		return out
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			b.List = flat(b.List)
		case *ast.CaseClause:
			b.Body = flat(b.Body)
		case *ast.CommClause:
			b.Body = flat(b.Body)
		}
		return true
	})
}

// waysOut returns true if the block ends by leaving the statements that follow it
func waysOut(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.BREAK || x.Tok == token.CONTINUE
	case *ast.BlockStmt:
		return waysOut(x)
	}
	return false
}
