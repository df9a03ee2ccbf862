package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Obligation is a function of /verif/spec stating what must hold
type Obligation struct {
	threads bool // examine what the goroutines do
	name    string
	fn      *FuncDecl
	props   []string
	opaque  []string
	use     []string
	doc     string
}

type ObResult struct {
	ob       *Obligation
	findings []Finding
	seen     map[string]int
	calls    int
	loops    int
	err      string
	where    string
	bounds   int
	unbound  []string // indices not proven to be in range
}

func (r *ObResult) ok() bool {
	if r.err != "" {
		return false
	}
	for _, f := range r.findings {
		if !f.ok {
			return false
		}
	}
	return true
}

func obligations(p *Program) []*Obligation {
	var l []*Obligation
	var paths []string
	for path := range p.pkgs {
		if strings.HasPrefix(path, "verifspec/") {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		for _, f := range p.pkgs[path].files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				o := &Obligation{name: strings.TrimPrefix(path, "verifspec/") + "." + fd.Name.Name, fn: p.funcs[p.pkgs[path].info.Defs[fd.Name].(*types.Func)]}
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					switch {
					case strings.HasPrefix(t, "verif:for "):
						o.props = append(o.props, strings.Fields(t[10:])...)
					case strings.HasPrefix(t, "verif:opaque "):
						o.opaque = append(o.opaque, strings.Fields(t[13:])...)
					case t == "verif:threads":
						o.threads = true
					case strings.HasPrefix(t, "verif:use "):
						for _, x := range strings.Fields(t[10:]) {
							if !strings.Contains(x, "=") {
								fail("malformed directive %s", c.Text)
							}
							o.use = append(o.use, x)
						}
					default:
						o.doc += strings.TrimSpace(t) + " "
					}
				}
				if len(o.props) > 0 {
					l = append(l, o)
				}
			}
		}
	}
	return l
}

// runObligation decides an obligation; when that fails, loops are read in parts
func runObligation(p *Program, o *Obligation) *ObResult {
	t := time.Now()
	res, in := attempt(p, o, os.Getenv("DBGSPLIT") != "", obligationBudget)
	ok := func(r *ObResult) bool { return r.ok() && (o.threads || len(r.unbound) == 0) }
	if !ok(res) && in.splittable && time.Since(t) < obligationBudget/2 {
		if r, _ := attempt(p, o, true, obligationBudget*2/3); ok(r) {
			return r
		}
	}
	return res
}

func attempt(p *Program, o *Obligation, split bool, budget time.Duration) (res *ObResult, in *Interp) {
	in = newInterp(p)
	in.split = split
	in.bounds = true
	res = &ObResult{ob: o}
	oldFacts := facts
	goalVars, instantiating, sumDepth, absorbing = nil, false, 0, 0
	deadline = time.Now().Add(budget)
	defer func() {
		facts = oldFacts
		res.findings = in.findings
		res.seen = in.seen
		res.calls = in.nCalls
		res.bounds = in.nBounds
		res.loops = len(in.loopHints)
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				res.err = "undecided: " + u.msg
				if debugStacks {
					res.err += "\n" + string(debug.Stack())
				}
			} else {
				res.err = fmt.Sprintf("undecided: internal error: %v", e)
				if debugStacks {
					res.err += "\n" + string(debug.Stack())
				}
			}
			res.where = in.trace()
		}
	}()
	for _, x := range o.opaque {
		// "a=b": a is the same function of its arguments as b (which an obligation of its own establishes)
		as := ""
		if i := strings.Index(x, "="); i >= 0 {
			x, as = x[:i], x[i+1:]
			if p.byKey[as] == nil {
				fail("the function %s, specified on its own, does not exist", as)
			}
		}
		if p.byKey["verifspec/"+x] != nil {
			x = "verifspec/" + x
		}
		if strings.Contains(x, ".") && p.byKey[x] == nil {
			continue // nothing to abstract from: what replaces it is analysed instead
		}
		in.opaque[x] = true
		if as == "" {
			as = x
		}
		in.opaqueAs[x] = as
	}
	for _, x := range o.use {
		i := strings.Index(x, "=")
		f := p.byKey["verifspec/"+x[i+1:]]
		if f == nil {
			f = p.byKey[x[i+1:]]
		}
		if f == nil {
			fail("no specification %s", x[i+1:])
		}
		if p.byKey[x[:i]] == nil {
			continue
		}
		in.use[x[:i]] = f
	}
	if o.fn.broken != "" {
		fail("the specification does not fit the code: %s", o.fn.broken)
	}
	st := newState()
	in.frame = &Frame{vars: map[types.Object]*Node{}, pkg: o.fn.pkg, fn: o.name, sig: o.fn.obj.Type().(*types.Signature), callKey: "top"}
	in.run(st, o.fn.pkg, o.name, o.fn.decl.Type, o.fn.decl.Body, o.fn.obj.Type().(*types.Signature), map[types.Object]*Node{}, nil, nil, o.fn.decl.Pos())
	in.recheckBounds(0)
	for _, e := range in.events {
		if e.kind == "bound" {
			if os.Getenv("DBGB") != "" {
				for _, k := range e.loops {
					fmt.Print("   ", show(k))
					if k.info != nil && k.info.hi != nil {
						fmt.Print(" < ", clip(show(k.info.hi), 200))
					}
				}
				fmt.Println()
			}
			res.unbound = append(res.unbound, fmt.Sprintf("%s (%s): an index, a size or a divisor may be out of range: %s is not established if %s", p.pos(e.pos), e.fn, clip(show(e.node), 300), clip(show(e.cond), 300)))
		}
	}
	if o.threads {
		in.checkThreads(st)
	}
	if c := Rebuild(st.cells[panicCell]); c != NFalse && !provable(Not(c), 4) {
		in.result("no panic", false, "a panic is reachable when %s", clip(show(c), 600))
	}
	return res, in
}

var debugStacks bool

const obligationBudget = 240 * time.Second

func (in *Interp) trace() string {
	return strings.Join(in.callStack, " > ")
}
