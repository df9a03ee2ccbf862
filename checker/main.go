package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Result is the outcome of one analysis (an obligation of /verif/spec or a whole-program rule)
type Result struct {
	Name    string   `json:"name"`
	What    string   `json:"what,omitempty"`
	Status  string   `json:"status"`
	Decided []string `json:"decided,omitempty"`
	Failed  []string `json:"failed,omitempty"`
	Reached []string `json:"reached,omitempty"`
	Calls   int      `json:"calls_interpreted"`
	Loops   int      `json:"loops_summarised"`
	Sites   int      `json:"sites,omitempty"`
	Bounds  int      `json:"indices,omitempty"`
	Unbound []string `json:"indices_not_in_range,omitempty"`
	Seconds float64  `json:"seconds"`

	Keys []string `json:"keys,omitempty"` // one per entry of Failed
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	one := flag.String("o", "", "development: run the obligations whose name contains this")
	prop := flag.String("p", "", "decide this property")
	list := flag.Bool("list", false, "list the obligations of every property")
	child := flag.String("child", "", "decide this obligation and print the result")
	all := flag.Bool("all", false, "development: decide every property that has obligations")
	flag.BoolVar(&debugStacks, "stack", false, "")
	prof := flag.String("prof", "", "")
	showBounds := flag.Bool("bounds", false, "development: show the indices not proven to be in range")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(5 << 29) // beyond this the collector runs more often
	p, err := loadProgram(*repo, *verif+"/spec")
	if *child != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, o := range obligations(p) {
			if o.name == *child {
				b, _ := json.Marshal(obligationResult(p, o))
				os.Stdout.Write(b)
				return
			}
		}
		os.Exit(1)
	}
	selfArgs = []string{"-repo", *repo, "-verif", *verif}
	if *prop != "" {
		os.Exit(decide(p, err, *prop, *verif, start))
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	obs := obligations(p)
	if *list {
		by := map[string][]string{}
		for _, o := range obs {
			for _, x := range o.props {
				by[x] = append(by[x], o.name)
			}
		}
		for x, rs := range rules {
			by[x] = append(by[x], "rule:"+rs.name)
		}
		var ks []string
		for k := range by {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k, by[k])
		}
		return
	}
	bad := 0
	if *one == "" {
		for i, r := range runAll(obs) {
			fmt.Printf("%s ok=%v %.2fs\n", obs[i].name, r.Status == "holds", r.Seconds)
			for _, f := range r.Failed {
				fmt.Println("   ", clip(f, 3000))
			}
			if *showBounds && len(r.Unbound) > 0 {
				fmt.Printf("    %d of %d unbound\n", len(r.Unbound), r.Bounds)
				for _, f := range r.Unbound {
					fmt.Println("    unbound:", f)
				}
			}
			if r.Status != "holds" {
				bad++
			}
		}
		obs = nil
	}
	for _, o := range obs {
		if *one != "" && !strings.Contains(o.name, *one) {
			continue
		}
		t := time.Now()
		r := runObligation(p, o)
		fmt.Printf("%s ok=%v %.2fs nodes=%d\n", o.name, r.ok(), time.Since(t).Seconds(), len(nodes))
		fmt.Println("   ", r.bounds, "indices,", len(r.unbound), "not proven to be in range")
		if *showBounds {
			for _, f := range r.unbound {
				fmt.Println("    unbound:", f)
			}
		}
		if r.err != "" {
			fmt.Println("   ", r.err, r.where)
		}
		for _, f := range r.findings {
			if !f.ok {
				fmt.Println("   ", f.pos, f.label, f.msg)
			}
		}
		if !r.ok() {
			bad++
		}
	}
	if *all || *one == "" {
		for x, rs := range rules {
			r := runRule(p, rs)
			fmt.Println(x, "rule", rs.name, r.Status, r.Sites)
			for _, f := range r.Failed {
				fmt.Println("   ", f)
			}
			if r.Status != "holds" {
				bad++
			}
		}
	}
	fmt.Println("failing:", bad)
}

// Rule is an analysis of the whole program
type Rule struct {
	name string
	what string
	min  int // fewer sites than this means that the rule lost sight of the code
	run  func(p *Program, r *Result)
}

var rules = map[string]*Rule{}

func (r *Result) fail(key, format string, args ...any) {
	r.Keys = append(r.Keys, key)
	r.Failed = append(r.Failed, fmt.Sprintf(format, args...))
}

func runRule(p *Program, ru *Rule) (r *Result) {
	r = &Result{Name: ru.name, What: ru.what}
	t := time.Now()
	defer func() {
		if e := recover(); e != nil {
			r.fail(ru.name+"/undecided", "undecided: %v", e)
		}
		if len(r.Failed) == 0 && r.Sites < ru.min {
			r.fail(ru.name+"/floor", "only %d sites found, at least %d expected: the rule does not see the code any more", r.Sites, ru.min)
		}
		r.Status = "holds"
		if len(r.Failed) > 0 {
			r.Status = "fails"
		}
		r.Seconds = time.Since(t).Seconds()
	}()
	ru.run(p, r)
	return r
}

var selfArgs []string

// rangeProp is decided by what all the obligations say about indices, sizes and panics; noCrash by its own
const rangeProp, noCrash = "P29", "P19"

// onlyFor keeps what matters for a property: what is computed, or the ranges of what is accessed
func (r *Result) onlyFor(prop string) {
	if prop == rangeProp {
		var ks, fs []string
		for i, k := range r.Keys {
			if strings.HasSuffix(k, "/no panic") || strings.HasSuffix(k, "/undecided") {
				ks, fs = append(ks, k), append(fs, r.Failed[i])
			}
		}
		r.Keys, r.Failed, r.Decided = ks, fs, nil
		if len(fs) == 0 {
			r.Status = "holds"
		}
	}
	if prop != rangeProp && prop != noCrash {
		r.Unbound = nil
		return
	}
	for _, u := range r.Unbound {
		r.fail(r.Name+"/range", "%s: %s", r.Name, u)
		r.Status = "fails"
	}
	if len(r.Unbound) == 0 && r.Bounds > 0 {
		r.Decided = append(r.Decided, "every index in range")
	}
}

// runAll decides obligations in processes of their own, several at a time
func runAll(obs []*Obligation) []*Result {
	res := make([]*Result, len(obs))
	next := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				res[i] = runChild(obs[i])
			}
		}()
	}
	for i := range obs {
		next <- i
	}
	close(next)
	wg.Wait()
	return res
}

func runChild(o *Obligation) *Result {
	r := &Result{Name: o.name, What: strings.TrimSpace(o.doc)}
	self, err := os.Executable()
	if err == nil {
		ctx, cancel := context.WithTimeout(context.Background(), childBudget)
		defer cancel()
		var out []byte
		if out, err = exec.CommandContext(ctx, self, append(append([]string{}, selfArgs...), "-child", o.name)...).Output(); err == nil {
			x := &Result{}
			if err = json.Unmarshal(out, x); err == nil && x.Name == o.name {
				return x
			}
		}
	}
	r.Status = "fails"
	r.fail(o.name+"/undecided", "%s: undecided: the analysis did not finish: %v", o.name, err)
	return r
}

func obligationResult(p *Program, o *Obligation) *Result {
	t := time.Now()
	x := runObligation(p, o)
	r := &Result{Name: o.name, What: strings.TrimSpace(o.doc), Calls: x.calls, Loops: x.loops}
	for _, f := range x.findings {
		if f.ok {
			r.Decided = append(r.Decided, f.label)
		} else {
			r.fail(o.name+"/"+f.label, "%s: %s: %s: %s", o.name, f.label, f.pos, f.msg)
		}
	}
	r.Bounds, r.Unbound = x.bounds, x.unbound
	for k := range x.seen {
		r.Reached = append(r.Reached, k)
	}
	sort.Strings(r.Reached)
	if x.err != "" {
		r.fail(o.name+"/undecided", "%s: %s (%s)", o.name, x.err, x.where)
	} else if len(x.findings) == 0 {
		r.fail(o.name+"/empty", "%s: no condition was checked", o.name)
	}
	r.Status = "holds"
	if len(r.Failed) > 0 {
		r.Status = "fails"
	}
	r.Seconds = time.Since(t).Seconds()
	return r
}

// decide is the check of one property
func decide(p *Program, err error, prop, verif string, start time.Time) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var results []*Result
	if err != nil {
		r := &Result{Name: "load", Status: "fails"}
		r.fail("load", "the program cannot be analysed: %v", err)
		results = append(results, r)
	} else {
		var obs []*Obligation
		for _, o := range obligations(p) {
			use := prop == rangeProp && !o.threads
			for _, x := range o.props {
				use = use || x == prop
			}
			if use {
				obs = append(obs, o)
			}
		}
		results = runAll(obs)
		for _, r := range results {
			r.onlyFor(prop)
		}
		if ru := rules[prop]; ru != nil {
			results = append(results, runRule(p, ru))
		}
	}
	if len(results) == 0 {
		r := &Result{Name: "none", Status: "fails"}
		r.fail("none", "no analysis decides this property")
		results = append(results, r)
	}
	known := knownFindings(verif, prop)
	var bad []string
	reached := map[string]bool{}
	var n, done, loops, calls, sites int
	for _, r := range results {
		for _, f := range r.Reached {
			if !strings.HasPrefix(f, "verifspec/") {
				reached[f] = true
			}
		}
		n += len(r.Decided) + len(r.Failed)
		done += len(r.Decided)
		if r.Sites > 0 {
			n += r.Sites
			done += r.Sites - len(r.Failed)
			if len(r.Failed) > 0 {
				n -= len(r.Failed)
			}
		}
		loops += r.Loops
		calls += r.Calls
		sites += r.Sites
		for i, f := range r.Failed {
			if what, ok := known[r.Keys[i]]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, what, r.Keys[i])
				continue
			}
			bad = append(bad, f)
		}
		fmt.Printf("%s: %s: %s (%d conditions, %d functions reached, %d calls interpreted, %d loops summarised, %d sites, %.1fs)\n",
			prop, r.Name, r.Status, len(r.Decided)+len(r.Failed), len(r.Reached), r.Calls, r.Loops, r.Sites, r.Seconds)
	}
	var rl []string
	for k := range reached {
		rl = append(rl, k)
	}
	sort.Strings(rl)
	files := 0
	if p != nil {
		files = p.nFile
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation": fmt.Sprintf("Static analysis of the current sources of /repo (%d files parsed and type checked). Every obligation of this property is a relation between what the code computes and its specification, for all inputs: function bodies are turned into gated value graphs (no path is enumerated, nothing is executed), loops are replaced by their closed forms, and both sides are compared in normal form. %d conditions, %d discharged, over %d functions of the repository.", files, n, done, len(rl)),
			"obligations": n, "discharged": done, "analyses": results, "functions": rl, "loops_summarised": loops, "calls_interpreted": calls, "sites": sites,
		},
		"assumptions": []string{"field and integer arithmetic of the dependencies (gurvy, gnark) behaves as documented", "machine integers do not overflow"},
		"wall_s":      time.Since(start).Seconds(), "violations": len(bad),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
	}
	if len(bad) > 0 {
		replay := filepath.Join(verif, "evidence", prop+".replay.txt")
		os.WriteFile(replay, []byte(strings.Join(bad, "\n")+"\n"), 0o644)
		for _, f := range bad {
			fmt.Println("  " + clip(f, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	os.Remove(filepath.Join(verif, "evidence", prop+".replay.txt"))
	return 0
}

// knownFindings maps the keys of the recorded defects to their description
func knownFindings(verif, prop string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" key=")
		if !ok {
			continue
		}
		// the key is quoted
		k, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		u, _ := strconv.Unquote(k)
		m[u] = strings.TrimSpace(rest[len(k):])
	}
	return m
}

const childBudget = 400 * time.Second
