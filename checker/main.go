package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked /repo in SSA form.
type Program struct {
	Prog *ssa.Program
	repo map[*ssa.Package]bool
	pkgs map[string]*ssa.Package
	src  map[string]*packages.Package
	dir  string
	bld  map[*ssa.Package]bool
}

func loadProgram(dir string, pats []string) (*Program, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadAllSyntax, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.BuilderMode(0))
	p := &Program{Prog: prog, repo: map[*ssa.Package]bool{}, pkgs: map[string]*ssa.Package{}, src: map[string]*packages.Package{}, dir: dir, bld: map[*ssa.Package]bool{}}
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if path == repoPath || strings.HasPrefix(path, repoPath+"/") {
			p.repo[sp] = true
			p.pkgs[strings.TrimPrefix(strings.TrimPrefix(path, repoPath), "/")] = sp
			sp.Build()
			p.bld[sp] = true
		}
	}
	packages.Visit(ps, nil, func(q *packages.Package) {
		if strings.HasPrefix(q.PkgPath, repoPath) {
			p.src[strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, repoPath), "/")] = q
		}
	})
	return p, nil
}

func (p *Program) build(fn *ssa.Function) {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil && !p.bld[f.Pkg] {
		p.bld[f.Pkg] = true
		f.Pkg.Build()
	}
}

func (p *Program) posOf(in ssa.Instruction) string {
	pos := in.Pos()
	if !pos.IsValid() && in.Parent() != nil {
		for _, i := range in.Block().Instrs {
			if i.Pos().IsValid() {
				pos = i.Pos()
				break
			}
		}
		if !pos.IsValid() {
			pos = in.Parent().Pos()
		}
	}
	ps := p.Prog.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Program) fnPos(fn *ssa.Function) string {
	ps := p.Prog.Fset.Position(fn.Pos())
	f := ps.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---- runs

type Violation struct {
	Obl  string `json:"obligation"`
	Site string `json:"site"`
	Msg  string `json:"message"`
	Path string `json:"state,omitempty"`
}

type Obl struct {
	Name   string `json:"name"`
	Entry  string `json:"entry"`
	OK     bool   `json:"ok"`
	Paths  int    `json:"outcomes"`
	Steps  int    `json:"steps"`
	Loops  int    `json:"loops"`
	Joins  int    `json:"joins"`
	Millis int64  `json:"ms"`
}

type Run struct {
	P    *Program
	Prop *Prop
	obls []Obl
	viol []Violation
	fns  map[string]int
	tier string
	only string
	verb bool

	ex      *Extras
	later   []func()
	last    bool
	grouped bool // one of several hypotheses is tried: nothing is put off
}

type Prop struct {
	ID    string
	Title string
	Pkgs  []string
	Min   int // obligations confirmed by hand; fewer is an error
	Rule  string
	Run   func(r *Run)
	Level string
	Trust []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Case is one obligation: initial states, one entry point, a postcondition.
type Case struct {
	r     *Run
	X     *Exec
	Name  string
	entry string
	site  string
	viol  []Violation
	paths int
	base  map[string]Val
}

func (r *Run) fail(obl, site, f string, a ...interface{}) {
	r.viol = append(r.viol, Violation{Obl: obl, Site: site, Msg: fmt.Sprintf(f, a...)})
}

// begun is when the run has started.
var begun = time.Now()

// Obl runs one obligation.
func (r *Run) Obl(name string, f func(c *Case)) {
	if r.only != "" && !strings.Contains(name, r.only) {
		return
	}
	x := NewExec(r.P)
	// an answer is due in 900 s; what takes long is put off until the rest is done
	left := 780 * time.Second
	if len(r.viol) > 0 {
		left = 200 * time.Second
	}
	x.deadline = begun.Add(left)
	pass := 150 * time.Second
	if len(r.viol) > 0 {
		pass = 15 * time.Second
	}
	if d := time.Now().Add(pass); (!r.last || r.grouped || len(r.viol) > 0) && d.Before(x.deadline) {
		x.deadline = d
	}
	late := false
	c := &Case{r: r, X: x, Name: name}
	t0 := time.Now()
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case undecided:
					late = e.msg == "time limit"
					c.bad(nil, "undecided: %s (at %s)", e.msg, x.where())
				case goPanic:
					c.bad(nil, "checker: stray panic %s %s (at %s)", e.kind, e.msg, x.where())
				case needSplit:
					c.bad(nil, "undecided: stray case split (at %s)", x.where())
					if r.verb {
						debug.PrintStack()
					}
				default:
					c.bad(nil, "undecided: checker failure %v (at %s)", e, x.where())
					if r.verb {
						debug.PrintStack()
					}
				}
			}
		}()
		f(c)
	}()
	if late && !r.last && !r.grouped && len(c.viol) == 1 {
		r.later = append(r.later, func() { r.Obl(name, f) })
		return
	}
	if c.paths == 0 && len(c.viol) == 0 {
		c.bad(nil, "nothing was analysed")
	}
	for fn, n := range x.funcs {
		r.fns[fn.String()] += n
	}
	o := Obl{Name: name, Entry: c.entry, OK: len(c.viol) == 0, Paths: c.paths, Steps: x.nsteps, Loops: x.nloops, Joins: x.njoins, Millis: time.Since(t0).Milliseconds()}
	r.obls = append(r.obls, o)
	r.viol = append(r.viol, c.viol...)
	if r.verb {
		fmt.Printf("%-60s ok=%v outcomes=%d steps=%d loops=%d joins=%d forks=%d %dms\n", name, o.OK, o.Paths, o.Steps, o.Loops, o.Joins, x.nforks, o.Millis)
		for i, v := range c.viol {
			if i < 3 {
				fmt.Printf("   !! %s: %s\n%s", v.Site, v.Msg, v.Path)
			}
		}
	}
}

func (c *Case) bad(st *State, f string, a ...interface{}) {
	if d := time.Now().Add(40 * time.Second); c.Name != "" && c.X != nil && !c.X.deadline.IsZero() && c.X.deadline.After(d) {
		c.X.deadline = d
	}
	v := Violation{Obl: c.Name, Site: c.site, Msg: fmt.Sprintf(f, a...)}
	if st != nil {
		v.Path = c.X.showState(st)
	}
	c.viol = append(c.viol, v)
}

// Fn finds a function or method ("Type.Method").
func (p *Program) Fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		panic(undecided{"package " + pkg + " not found"})
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, ok := sp.Pkg.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			panic(undecided{"type " + pkg + "." + name[:i] + " not found"})
		}
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, sp.Pkg, name[i+1:])
		f, ok := o.(*types.Func)
		if !ok {
			// method of an alias or interface
			panic(undecided{"method " + pkg + "." + name + " not found"})
		}
		if fn := p.Prog.FuncValue(f.Origin()); fn != nil {
			return fn
		}
		panic(undecided{"method " + pkg + "." + name + " has no body"})
	}
	fn := sp.Func(name)
	if fn == nil {
		panic(undecided{"function " + pkg + "." + name + " not found"})
	}
	return fn
}

func (p *Program) Type(pkg, name string) *types.Named {
	sp := p.pkgs[pkg]
	if sp == nil {
		panic(undecided{"package " + pkg + " not found"})
	}
	tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		panic(undecided{"type " + pkg + "." + name + " not found"})
	}
	n, ok := types.Unalias(tn.Type()).(*types.Named)
	if !ok {
		panic(undecided{"type " + pkg + "." + name + " is not a defined type"})
	}
	return n
}

// Call runs a function and returns all its outcomes.
func (c *Case) Call(st *State, fn *ssa.Function, tm TM, args ...Val) []Ret {
	c.entry = fn.String()
	c.site = c.r.P.fnPos(fn)
	c.X.P.build(fn)
	// memory the caller knows stays known
	if st.ghost["args"] == nil {
		var keep []Val
		for _, a := range args {
			switch a.(type) {
			case VPtr, VSlice:
				keep = append(keep, a)
			}
		}
		if keep != nil {
			st.ghost["args"] = VTuple{keep}
		}
	}
	rs := c.X.callFn(st, fn, tm, args, nil)
	return rs
}

// Each checks every outcome; the check may split the state.
func (c *Case) Each(rs []Ret, f func(s *State, r Ret) string) {
	x := c.X
	for _, r := range rs {
		r := r
		x.fork(r.st, func(s *State) []Ret {
			q := r
			q.st = s
			m := f(s, q)
			c.paths++
			if m != "" {
				site := c.site
				if r.pan != nil {
					site = r.pan.Pos
				}
				c.viol = append(c.viol, Violation{Obl: c.Name, Site: site, Msg: m, Path: x.showState(s)})
			}
			return nil
		})
	}
	if len(rs) == 0 {
		c.bad(nil, "no outcome: the call never returns")
	}
}

func panMsg(p *Pan) string {
	return fmt.Sprintf("panics: %s: %s at %s in %s", p.Kind, p.Msg, p.Pos, p.Fn)
}

// ---- known findings

type finding struct{ prop, obl, text string }

func loadFindings(path string) (fs []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// KNOWN-FINDING: property=<id> obligation=<name> :: <text>
		if !strings.HasPrefix(l, "KNOWN-FINDING: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "KNOWN-FINDING: property=")
		i := strings.Index(rest, " ")
		j := strings.Index(rest, " :: ")
		if i < 0 || j < 0 {
			continue
		}
		o := strings.TrimPrefix(rest[i+1:j], "obligation=")
		fs = append(fs, finding{rest[:i], o, rest[j+4:]})
	}
	return
}

func main() {
	id := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "source tree")
	out := flag.String("out", "/verif", "directory of evidence/ and known_findings.txt")
	only := flag.String("only", "", "only obligations whose name contains this")
	verb := flag.Bool("v", false, "verbose")
	flag.Parse()
	var ids []string
	if *id == "all" {
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*id, ",")
	}
	code := 0
	for _, k := range ids {
		p := props[k]
		if p == nil {
			fmt.Printf("no such property %q\n", k)
			os.Exit(2)
		}
		if c := runProp(p, *repo, *out, *only, *verb); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func runProp(p *Prop, repo, out, only string, verb bool) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ex := &Extras{by: map[string]*extra{}}
	newRun := func() *Run {
		return &Run{Prop: p, fns: map[string]int{}, tier: tier, only: only, verb: verb, ex: ex}
	}
	r := newRun()
	var pats []string
	for _, q := range p.Pkgs {
		pats = append(pats, "./"+q)
	}
	prog, err := loadProgram(repo, pats)
	if err != nil {
		r.fail("load", repo, "%v", err)
	} else {
		run := func(r *Run) {
			r.P = prog
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(undecided); ok {
						r.fail("anchors", repo, "undecided: %s", u.msg)
						return
					}
					if verb {
						debug.PrintStack()
					}
					r.fail("checker", repo, "undecided: checker failure %v", e)
				}
			}()
			p.Run(r)
			r.last = true
			for _, f := range r.later {
				if len(r.viol) > 0 {
					break // one violation is enough
				}
				f()
			}
		}
		run(r)
		// other hypotheses on the fields the specification does not know
		for i := 0; i < 40 && len(r.viol) > 0 && time.Since(begun) < 400*time.Second && ex.next(); i++ {
			s := newRun()
			if verb {
				fmt.Printf("-- further fields: %s\n", ex)
			}
			if run(s); len(s.viol) == 0 {
				r = s
			}
		}
		if only == "" && len(r.obls) < p.Min && len(r.viol) == 0 {
			r.fail("count", repo, "only %d obligations were found, %d are expected", len(r.obls), p.Min)
		}
	}
	known := loadFindings(filepath.Join(out, "known_findings.txt"))
	var real []Violation
	shown := map[string]bool{}
	for _, v := range r.viol {
		hit := false
		for _, f := range known {
			if f.prop == p.ID && f.obl == v.Obl {
				hit = true
				if !shown[f.obl] {
					shown[f.obl] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.text)
				}
			}
		}
		if !hit {
			real = append(real, v)
		}
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(r, p, out, tier, seed, wall, real)
	if len(real) == 0 {
		fmt.Printf("property=%s holds: %d obligations, %d functions analysed, %.1fs\n", p.ID, len(r.obls), len(r.fns), wall)
		return 0
	}
	dir := filepath.Join(out, "evidence")
	os.MkdirAll(dir, 0o755)
	rp := filepath.Join(dir, p.ID+".violation.json")
	b, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "violations": real}, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, v := range real {
		if i >= 5 {
			fmt.Printf("  ... and %d more\n", len(real)-i)
			break
		}
		fmt.Printf("  %s: [%s] %s\n", v.Site, v.Obl, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	return 1
}

func writeEvidence(r *Run, p *Prop, out, tier string, seed int, wall float64, real []Violation) {
	lvl := p.Level
	if lvl == "" {
		lvl = "proof"
	}
	disc, outcomes, steps, loops, joins := 0, 0, 0, 0, 0
	for _, o := range r.obls {
		if o.OK {
			disc++
		}
		outcomes += o.Paths
		steps += o.Steps
		loops += o.Loops
		joins += o.Joins
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"obligations":        len(r.obls),
		"discharged":         disc,
		"checker_cmd":        "bash /verif/check.sh " + p.ID,
		"trusted_base":       append([]string{"go/types and golang.org/x/tools/go/ssa v0.52.0 (front end)", "the abstract interpreter in /verif/checker (exec.go, mem.go, loop.go, lin.go)", "the models of the standard library in /verif/checker/models.go"}, p.Trust...),
		"rule":               p.Rule,
		"abstract_outcomes":  outcomes,
		"instructions":       steps,
		"loops_entered":      loops,
		"loop_joins":         joins,
		"functions_analysed": fns,
		"samples":            r.obls,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
		"wall_s": wall, "violations": len(real), "assumptions": append(append([]string{}, assumptions[p.ID]...), p.Trust...),
	}
	dir := filepath.Join(out, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}
