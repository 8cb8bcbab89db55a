package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C36: state that packages share between their users.
//
// An effect and lockset analysis of the whole repository. Every package
// variable, and every variable captured by a function kept in one, is a root.
// The memory reachable from a root is followed through calls, results,
// closures and local variables by access paths; each read and write of it in
// code that runs after initialisation is recorded with the locks held there,
// which are followed through calls as well. A place that is written must be
// accessed atomically throughout, or under one lock common to all accesses, in
// write mode where it is written.

// shPath names a place: the root and what is followed from it.
type shPath struct {
	root string
	p    string
}

func (a shPath) add(s string) shPath { return shPath{a.root, a.p + s} }

// tooLong cuts paths of recursive data.
func (a shPath) tooLong() bool {
	return strings.Count(a.p, "*")+strings.Count(a.p, ".")+strings.Count(a.p, "[]") > 9
}

type shSet map[shPath]bool

// shFn is a function as a value.
type shFn struct {
	fn   *ssa.Function
	bind []ssa.Value
}

type shAcc struct {
	cell   shPath
	write  bool
	atomic bool
	locks  map[shPath]int // 1 read, 2 write
	in     ssa.Instruction
}

type shared struct {
	p       *Program
	fns     []*ssa.Function
	in      map[*ssa.Function]bool
	val     map[ssa.Value]shSet
	content map[shPath]shSet
	rets    map[*ssa.Function][]shSet
	refs    map[string]shFn
	refID   map[ssa.Value]string
	shared  map[string]bool // roots that are shared
	holds   map[string]bool // roots of local variables that refer to something followed
	roots   map[string]ssa.Value
	changed bool
	exposed map[*types.Named]bool

	accs    []shAcc
	memo    map[string]map[shPath]int
	busy    map[string]bool
	visited map[*ssa.Function]bool
	stores  map[ssa.Value][]*ssa.Store
	sites   int
	nctx    int
}

func isInitOnly(fn *ssa.Function) bool { return isInitFn(fn) || fn.Name() == "init" }

// origin is the generic function an instance comes from.
func origin(fn *ssa.Function) *ssa.Function {
	if fn != nil {
		if o := fn.Origin(); o != nil {
			return o
		}
	}
	return fn
}

func newShared(p *Program) *shared {
	a := &shared{p: p, in: map[*ssa.Function]bool{}, val: map[ssa.Value]shSet{}, content: map[shPath]shSet{}, rets: map[*ssa.Function][]shSet{},
		refs: map[string]shFn{}, refID: map[ssa.Value]string{}, shared: map[string]bool{}, holds: map[string]bool{}, roots: map[string]ssa.Value{},
		memo: map[string]map[shPath]int{}, busy: map[string]bool{}, visited: map[*ssa.Function]bool{}}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || a.in[fn] || fn.Blocks == nil {
			return
		}
		a.in[fn] = true
		a.fns = append(a.fns, fn)
		for _, f := range fn.AnonFuncs {
			add(f)
		}
	}
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if n == "test" || n == "cmd" || strings.HasPrefix(n, "cmd/") || strings.HasPrefix(n, "test/") {
			continue
		}
		pk := p.pkgs[n]
		var ms []string
		for m := range pk.Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			switch m := pk.Members[m].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Global:
				root := n + "." + m.Name()
				a.roots[root] = m
				a.shared[root] = true
				a.val[m] = shSet{{root, ""}: true}
			case *ssa.Type:
				if t, ok := types.Unalias(m.Type()).(*types.Named); ok {
					for i := 0; i < t.NumMethods(); i++ {
						add(p.Prog.FuncValue(t.Method(i)))
					}
				}
			}
		}
	}
	return a
}

func (a *shared) of(v ssa.Value) shSet {
	switch f := v.(type) {
	case *ssa.Function:
		return shSet{{a.ref(v, f, nil), ""}: true}
	case *ssa.MakeClosure:
		return shSet{{a.ref(v, f.Fn.(*ssa.Function), f.Bindings), ""}: true}
	case *ssa.Alloc:
		id := a.refID[v]
		if id == "" {
			id = fmt.Sprintf("alloc#%d", len(a.refID))
			a.refID[v] = id
			a.roots[id] = v
		}
		return shSet{{id, ""}: true}
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return shSet{{paramRoot(p), ""}: true}
	}
	return a.val[v]
}

// paramRoot stands for whatever a parameter refers to.
func paramRoot(p *ssa.Parameter) string {
	for i, q := range p.Parent().Params {
		if q == p {
			return fmt.Sprintf("param#%d of %p", i, p.Parent())
		}
	}
	return "param"
}

// shEnv says what parameters refer to in a call.
type shEnv map[string]shSet

// expand replaces parameters by what they refer to in a call.
func (a *shared) expand(s shSet, env shEnv) shSet {
	out := shSet{}
	for k := range s {
		if !strings.HasPrefix(k.root, "param#") {
			out[k] = true
			continue
		}
		for c := range a.follow(env[k.root], k.p, env, 0) {
			out[c] = true
		}
	}
	return out
}

// follow goes along a path from places, through what was stored on the way.
func (a *shared) follow(from shSet, p string, env shEnv, depth int) shSet {
	cur := from
	if depth > 6 {
		return shSet{}
	}
	for p != "" {
		n := 1
		for n < len(p) && !strings.ContainsRune("*.[!", rune(p[n])) {
			n++
		}
		next := shSet{}
		for c := range cur {
			if d := c.add(p[:n]); !d.tooLong() {
				next[d] = true
			}
			if p[:n] == "*" {
				for k := range a.content[c] {
					if strings.HasPrefix(k.root, "param#") {
						for d := range a.follow(env[k.root], k.p, env, depth+1) {
							next[d] = true
						}
					} else if k != c {
						next[k] = true
					}
				}
			}
		}
		cur, p = next, p[n:]
	}
	return cur
}

func (a *shared) envKey(env shEnv) string {
	var ks []string
	for r, s := range env {
		var e []string
		for k := range s {
			e = append(e, k.root+k.p)
		}
		if len(e) > 0 {
			sort.Strings(e)
			ks = append(ks, r+"="+strings.Join(e, " "))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// matters reports places worth following into a call.
func (a *shared) matters(s shSet) shSet {
	out := shSet{}
	for k := range s {
		if a.shared[k.root] || strings.HasPrefix(k.root, "func#") || a.holds[k.root] {
			out[k] = true
		}
	}
	return out
}

func (a *shared) ref(v ssa.Value, fn *ssa.Function, bind []ssa.Value) string {
	id := a.refID[v]
	if id == "" {
		id = fmt.Sprintf("func#%d", len(a.refID))
		a.refID[v] = id
		a.refs[id] = shFn{origin(fn), bind}
	}
	return id
}

func (a *shared) put(v ssa.Value, s shSet) {
	for k := range s {
		a.put1(v, k)
	}
}

func (a *shared) put1(v ssa.Value, k shPath) {
	if k.tooLong() {
		return
	}
	m := a.val[v]
	if m == nil {
		m = shSet{}
		a.val[v] = m
	}
	if !m[k] {
		m[k] = true
		a.changed = true
	}
}

// refersAny also counts functions and interfaces.
func refersAny(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refersAny(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refersAny(u.Elem())
	}
	return refersMem(t)
}

func isAggr(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// loaded gives what a value read from a place refers to.
func (a *shared) loaded(v ssa.Value, t types.Type, cells shSet) {
	if !refersAny(t) {
		return
	}
	for c := range cells {
		if isAggr(t) {
			a.put1(v, c)
		} else {
			a.put1(v, c.add("*"))
		}
		a.put(v, a.content[c])
		// what was stored as part of a larger value
		for p := c; strings.Contains(p.p, "."); {
			i := strings.LastIndex(p.p, ".")
			if strings.ContainsAny(p.p[i:], "*[") {
				break
			}
			p = shPath{p.root, p.p[:i]}
			for k := range a.content[p] {
				a.put1(v, k)
			}
		}
	}
}

// fieldName is the name of field i of a struct type.
func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return "." + s.Field(i).Name()
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
	}
	return fmt.Sprintf(".%d", i)
}

// flow passes over all functions until nothing new is found.
func (a *shared) flow() {
	for n := 0; n < 60; n++ {
		a.changed = false
		for _, fn := range a.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					a.flowInstr(fn, in)
				}
			}
		}
		if !a.changed {
			return
		}
	}
}

func (a *shared) flowInstr(fn *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			a.loaded(in, in.Type(), a.of(in.X))
		}
	case *ssa.FieldAddr:
		for c := range a.of(in.X) {
			a.put1(in, c.add(fieldName(in.X.Type(), in.Field)))
		}
	case *ssa.Field:
		s := shSet{}
		for c := range a.of(in.X) {
			s[c.add(fieldName(in.X.Type(), in.Field))] = true
		}
		a.loaded(in, in.Type(), s)
	case *ssa.IndexAddr:
		for c := range a.of(in.X) {
			a.put1(in, c.add("[]"))
		}
	case *ssa.Index:
		s := shSet{}
		for c := range a.of(in.X) {
			s[c.add("[]")] = true
		}
		a.loaded(in, in.Type(), s)
	case *ssa.Lookup:
		if in.CommaOk {
			break
		}
		s := shSet{}
		for c := range a.of(in.X) {
			s[c.add("[]")] = true
		}
		a.loaded(in, in.Type(), s)
	case *ssa.Extract:
		switch t := in.Tuple.(type) {
		case *ssa.Lookup:
			if in.Index == 0 {
				s := shSet{}
				for c := range a.of(t.X) {
					s[c.add("[]")] = true
				}
				a.loaded(in, in.Type(), s)
			}
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && in.Index == 2 {
				s := shSet{}
				for c := range a.of(r.X) {
					s[c.add("[]")] = true
				}
				a.loaded(in, in.Type(), s)
			}
		case *ssa.TypeAssert:
			if in.Index == 0 {
				a.put(in, a.of(t.X))
			}
		case *ssa.Call:
			for _, f := range a.callees(&t.Call, nil) {
				if rs := a.rets[f.fn]; in.Index < len(rs) {
					a.put(in, a.expand(rs[in.Index], a.bindTo(f, &t.Call, nil)))
				}
			}
		}
	case *ssa.Slice:
		a.put(in, a.of(in.X))
	case *ssa.Phi:
		for _, e := range in.Edges {
			a.put(in, a.of(e))
		}
	case *ssa.ChangeType:
		a.put(in, a.of(in.X))
	case *ssa.ChangeInterface:
		a.put(in, a.of(in.X))
	case *ssa.MakeInterface:
		a.put(in, a.of(in.X))
	case *ssa.SliceToArrayPointer:
		a.put(in, a.of(in.X))
	case *ssa.TypeAssert:
		if !in.CommaOk {
			a.put(in, a.of(in.X))
		}
	case *ssa.Convert:
		if refersMem(in.Type()) && refersMem(in.X.Type()) {
			a.put(in, a.of(in.X))
		}
	case *ssa.Store:
		a.storeTo(a.of(in.Addr), in.Val)
	case *ssa.MapUpdate:
		s := shSet{}
		for c := range a.of(in.Map) {
			s[c.add("[]")] = true
		}
		a.storeTo(s, in.Value)
	case *ssa.MakeClosure:
		f := origin(in.Fn.(*ssa.Function))
		for i, v := range f.FreeVars {
			if i < len(in.Bindings) {
				a.put(v, a.of(in.Bindings[i]))
			}
		}
	case *ssa.Return:
		rs := a.rets[fn]
		for len(rs) < len(in.Results) {
			rs = append(rs, shSet{})
		}
		for i, r := range in.Results {
			for k := range a.of(r) {
				if !rs[i][k] {
					rs[i][k] = true
					a.changed = true
				}
			}
		}
		a.rets[fn] = rs
	case *ssa.Call:
		a.flowCall(&in.Call, in)
	case *ssa.Go:
		a.flowCall(&in.Call, nil)
	case *ssa.Defer:
		a.flowCall(&in.Call, nil)
	}
}

func (a *shared) storeTo(cells shSet, v ssa.Value) {
	if !refersAny(v.Type()) {
		return
	}
	s := a.of(v)
	for c := range cells {
		m := a.content[c]
		if m == nil {
			m = shSet{}
			a.content[c] = m
		}
		for k := range s {
			if !m[k] && !k.tooLong() {
				m[k] = true
				a.changed = true
			}
		}
	}
}

// callees are the functions a call may run, as far as they are known.
func (a *shared) callees(c *ssa.CallCommon, env shEnv) []shFn {
	if c.IsInvoke() {
		return nil
	}
	if f := c.StaticCallee(); f != nil {
		r := shFn{fn: origin(f)}
		if m, ok := c.Value.(*ssa.MakeClosure); ok {
			r.bind = m.Bindings
		}
		return []shFn{a.unwrap(r)}
	}
	var out []shFn
	var ks []string
	for k := range a.expand(a.of(c.Value), env) {
		if _, ok := a.refs[k.root]; ok && k.p == "" {
			ks = append(ks, k.root)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, a.unwrap(a.refs[k]))
	}
	return out
}

// unwrap replaces the function made for a method value by the method.
func (a *shared) unwrap(f shFn) shFn {
	if !a.in[f.fn] && strings.HasPrefix(f.fn.Synthetic, "bound method wrapper") {
		if o, ok := f.fn.Object().(*types.Func); ok {
			if m := a.p.Prog.FuncValue(o.Origin()); m != nil {
				return shFn{origin(m), f.bind}
			}
		}
	}
	return f
}

// argsOf are the arguments of a call to one of its callees.
func (f shFn) argsOf(c *ssa.CallCommon) []ssa.Value {
	if len(f.bind) == 1 && len(f.fn.FreeVars) == 0 && len(f.fn.Params) == len(c.Args)+1 {
		return append([]ssa.Value{f.bind[0]}, c.Args...)
	}
	return c.Args
}

func (a *shared) flowCall(c *ssa.CallCommon, res *ssa.Call) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && res != nil {
			a.put(res, a.of(c.Args[0]))
			// references among what is appended
			if st, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && refersAny(st.Elem()) {
				for d := range a.of(c.Args[0]) {
					for s := range a.of(c.Args[1]) {
						m := a.content[d.add("[]")]
						if m == nil {
							m = shSet{}
							a.content[d.add("[]")] = m
						}
						for k := range a.content[s.add("[]")] {
							if !m[k] && !k.tooLong() {
								m[k] = true
								a.changed = true
							}
						}
					}
				}
			}
		}
		return
	}
	for _, f := range a.callees(c, nil) {
		if !a.in[f.fn] {
			continue
		}
		if res != nil && f.fn.Signature.Results().Len() == 1 {
			if rs := a.rets[f.fn]; len(rs) == 1 {
				a.put(res, a.expand(rs[0], a.bindTo(f, c, nil)))
			}
		}
	}
}

// bindTo gives the parameters of a callee what the arguments refer to; without
// an environment the caller's own parameters stay as they are.
func (a *shared) bindTo(f shFn, c *ssa.CallCommon, env shEnv) shEnv {
	out := shEnv{}
	for k, s := range env {
		out[k] = s
	}
	args := f.argsOf(c)
	for i, p := range f.fn.Params {
		if i >= len(args) {
			break
		}
		s := a.of(args[i])
		if env != nil {
			s = a.matters(a.expand(s, env))
		}
		out[paramRoot(p)] = s
	}
	return out
}

// locals finds the local variables that refer to something followed.
func (a *shared) locals() {
	for again := true; again; {
		again = false
		for c, m := range a.content {
			if a.holds[c.root] || a.shared[c.root] {
				continue
			}
			for k := range m {
				if a.shared[k.root] || a.holds[k.root] || strings.HasPrefix(k.root, "func#") || strings.HasPrefix(k.root, "param#") {
					a.holds[c.root] = true
					again = true
				}
			}
		}
	}
}

// captured marks the variables captured by functions that package variables
// hold as shared.
func (a *shared) captured() {
	seen := map[string]bool{}
	var fromFn func(id string)
	fromFn = func(id string) {
		if seen[id] {
			return
		}
		seen[id] = true
		for _, b := range a.refs[id].bind {
			for k := range a.of(b) {
				if strings.HasPrefix(k.root, "alloc#") {
					a.shared[k.root] = true
				}
				if _, ok := a.refs[k.root]; ok {
					fromFn(k.root)
				}
				for c, m := range a.content {
					if c.root == k.root {
						for j := range m {
							if _, ok := a.refs[j.root]; ok {
								fromFn(j.root)
							}
						}
					}
				}
			}
		}
	}
	for c, m := range a.content {
		if v, ok := a.roots[c.root].(*ssa.Global); ok && v != nil {
			for k := range m {
				if _, ok := a.refs[k.root]; ok {
					fromFn(k.root)
				}
			}
		}
	}
}

// ---- locks and accesses

func copyLocks(l map[shPath]int) map[shPath]int {
	r := make(map[shPath]int, len(l))
	for k, v := range l {
		r[k] = v
	}
	return r
}

func meetLocks(l, m map[shPath]int) map[shPath]int {
	r := map[shPath]int{}
	for k, v := range l {
		if w := m[k]; w > 0 {
			if w < v {
				v = w
			}
			r[k] = v
		}
	}
	return r
}

func sameLocks(l, m map[shPath]int) bool {
	if len(l) != len(m) {
		return false
	}
	for k, v := range l {
		if m[k] != v {
			return false
		}
	}
	return true
}

func locksKey(l map[shPath]int) string {
	var s []string
	for k, v := range l {
		s = append(s, fmt.Sprintf("%s%s:%d", k.root, k.p, v))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (a *shared) rec(in ssa.Instruction, cells shSet, suffix string, write, atomic bool, locks map[shPath]int) {
	for c := range cells {
		if !a.shared[c.root] {
			continue
		}
		a.sites++
		a.accs = append(a.accs, shAcc{c.add(suffix), write, atomic, copyLocks(locks), in})
	}
}

// run analyses a function called with locks held and gives those held after.
func (a *shared) run(fn *ssa.Function, entry map[shPath]int, env shEnv) map[shPath]int {
	key := fmt.Sprintf("%p|%s|%s", fn, locksKey(entry), a.envKey(env))
	if r, ok := a.memo[key]; ok {
		return r
	}
	if a.busy[key] {
		return entry
	}
	a.busy[key] = true
	defer delete(a.busy, key)
	a.visited[fn] = true
	a.nctx++
	at := map[*ssa.BasicBlock]map[shPath]int{fn.Blocks[0]: copyLocks(entry)}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	var exit map[shPath]int
	var defers []*ssa.Defer
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	pass := func(b *ssa.BasicBlock, record bool) (map[shPath]int, bool) {
		l := copyLocks(at[b])
		for _, in := range b.Instrs {
			l = a.step(in, l, record, defers, env)
			if _, ok := in.(*ssa.Return); ok {
				return l, true
			}
		}
		return l, false
	}
	for n := 0; len(work) > 0 && n < 2000; n++ {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		l, ret := pass(b, false)
		if ret {
			continue
		}
		for i, s := range b.Succs {
			m := l
			// a lock tried for is held where it was had
			if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				m = a.tried(c.Cond, i == 0, l, env)
			}
			old, ok := at[s]
			if !ok {
				at[s] = copyLocks(m)
				work = append(work, s)
				continue
			}
			if j := meetLocks(old, m); !sameLocks(j, old) {
				at[s] = j
				work = append(work, s)
			}
		}
	}
	for _, b := range fn.Blocks {
		if at[b] == nil {
			continue
		}
		if l, ret := pass(b, true); ret {
			if exit == nil {
				exit = copyLocks(l)
			} else {
				exit = meetLocks(exit, l)
			}
		}
	}
	if exit == nil {
		exit = copyLocks(entry)
	}
	a.memo[key] = exit
	return exit
}

// tried adds the lock that a successful try has taken.
func (a *shared) tried(cond ssa.Value, yes bool, l map[shPath]int, env shEnv) map[shPath]int {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, yes = u.X, !yes
	}
	c, ok := cond.(*ssa.Call)
	if !ok || !yes {
		return l
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || !strings.HasPrefix(f.Name(), "Try") {
		return l
	}
	m := copyLocks(l)
	for k := range a.expand(a.of(c.Call.Args[0]), env) {
		if f.Name() == "TryRLock" {
			m[k] = 1
		} else {
			m[k] = 2
		}
	}
	return m
}

func (a *shared) step(in ssa.Instruction, l map[shPath]int, record bool, defers []*ssa.Defer, env shEnv) map[shPath]int {
	rec := func(cells shSet, suffix string, write bool) {
		if record {
			a.rec(in, cells, suffix, write, false, l)
		}
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			rec(a.expand(a.of(in.X), env), "", false)
		}
	case *ssa.Store:
		rec(a.expand(a.of(in.Addr), env), "", true)
	case *ssa.MapUpdate:
		rec(a.expand(a.of(in.Map), env), "[]", true)
	case *ssa.Lookup:
		rec(a.expand(a.of(in.X), env), "[]", false)
	case *ssa.Range:
		rec(a.expand(a.of(in.X), env), "[]", false)
	case *ssa.Next:
		if r, ok := in.Iter.(*ssa.Range); ok {
			rec(a.expand(a.of(r.X), env), "[]", false)
		}
	case *ssa.Call:
		return a.call(in, &in.Call, l, record, env)
	case *ssa.Go:
		a.call(in, &in.Call, map[shPath]int{}, record, env)
	case *ssa.RunDefers:
		for i := len(defers) - 1; i >= 0; i-- {
			l = a.call(defers[i], &defers[i].Call, l, record, env)
		}
	}
	return l
}

// syncSafe reports types whose methods may be called concurrently.
func syncSafe(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch path := n.Obj().Pkg().Path(); path {
		case "sync", "sync/atomic", "regexp", "log", "log/slog", "os", "context", "reflect", "errors", "net", "net/http", "text/template", "html/template", "expvar", "io/fs", "unicode", "encoding/base64", "encoding/base32", "encoding/binary", "crypto/aes", "crypto/cipher", "hash/crc32", "hash/crc64", "math/big", "time", "strings":
			if path == "strings" {
				return n.Obj().Name() == "Replacer"
			}
			return true
		}
	}
	return false
}

// readOnly names functions of other packages that only read their arguments.
func readOnlyFn(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	if f.Signature.Recv() != nil {
		return syncSafe(f.Signature.Recv().Type())
	}
	switch f.Pkg.Pkg.Path() {
	case "sort", "slices":
		switch f.Name() {
		case "Sort", "Stable", "Slice", "SliceStable", "Ints", "Strings", "Float64s", "SortFunc", "SortStableFunc", "Reverse", "Delete", "DeleteFunc", "Insert", "Replace", "Compact", "CompactFunc":
			return false
		}
	case "io":
		return !strings.HasPrefix(f.Name(), "Read") && !strings.HasPrefix(f.Name(), "Copy")
	case "crypto/rand", "math/rand", "math/rand/v2":
		return false
	case "encoding/hex", "encoding/ascii85":
		return false
	case "maps":
		return f.Name() != "Copy" && f.Name() != "DeleteFunc" && f.Name() != "Insert"
	}
	return true
}

func (a *shared) call(in ssa.Instruction, c *ssa.CallCommon, l map[shPath]int, record bool, env shEnv) map[shPath]int {
	rec := func(v ssa.Value, suffix string, write, atomic bool) {
		if record {
			a.rec(in, a.expand(a.of(v), env), suffix, write, atomic, l)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				rec(c.Args[0], "[]", false, false)
			}
		case "delete", "clear":
			rec(c.Args[0], "[]", true, false)
		case "copy":
			rec(c.Args[0], "[]", true, false)
			rec(c.Args[1], "[]", false, false)
		case "append":
			rec(c.Args[0], "[]", a.spare(c.Args[0], map[ssa.Value]bool{}), false)
			rec(c.Args[1], "[]", false, false)
		}
		return l
	}
	if c.IsInvoke() {
		name := c.Method.Name()
		if name == "Lock" || name == "Unlock" || name == "RLock" || name == "RUnlock" {
			return a.lockOp(name, c.Value, l, env)
		}
		// the state of a shared hash, source or stream
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "hash", "math/rand", "math/rand/v2":
				rec(c.Value, "", true, false)
			case "crypto/cipher":
				if n.Obj().Name() == "Stream" || n.Obj().Name() == "BlockMode" {
					rec(c.Value, "", true, false)
				}
			}
		}
		return a.invoke(c, l, env)
	}
	fs := a.callees(c, env)
	if len(fs) == 0 {
		return l
	}
	var out map[shPath]int
	for _, f := range fs {
		m := a.callOne(in, c, f, copyLocks(l), record, env)
		if out == nil {
			out = m
		} else {
			out = meetLocks(out, m)
		}
	}
	return out
}

// invoke follows a call through an interface to the methods of the objects of
// the repository that are known to be behind it.
func (a *shared) invoke(c *ssa.CallCommon, l map[shPath]int, env shEnv) map[shPath]int {
	recv := a.expand(a.of(c.Value), env)
	if len(recv) == 0 {
		return l
	}
	var fns []*ssa.Function
	for k := range a.expand(a.of(c.Value), env) {
		v, ok := a.roots[k.root]
		if !ok || k.p != "" {
			continue
		}
		m, _, _ := types.LookupFieldOrMethod(v.Type(), true, c.Method.Pkg(), c.Method.Name())
		if f, ok := m.(*types.Func); ok {
			if fn := origin(a.p.Prog.FuncValue(f.Origin())); fn != nil && a.in[fn] {
				fns = append(fns, fn)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	out := l
	for _, fn := range fns {
		e := shEnv{}
		for r, s := range env {
			e[r] = s
		}
		for i, p := range fn.Params {
			if i == 0 {
				e[paramRoot(p)] = recv
			} else if i-1 < len(c.Args) {
				e[paramRoot(p)] = a.matters(a.expand(a.of(c.Args[i-1]), env))
			}
		}
		out = meetLocks(out, a.run(fn, copyLocks(l), e))
	}
	return out
}

func (a *shared) callOne(in ssa.Instruction, c *ssa.CallCommon, f shFn, l map[shPath]int, record bool, env shEnv) map[shPath]int {
	args := f.argsOf(c)
	if a.in[f.fn] {
		if isInitOnly(f.fn) {
			return l
		}
		return a.run(f.fn, l, a.bindTo(f, c, env))
	}
	path := ""
	if f.fn.Pkg != nil {
		path = f.fn.Pkg.Pkg.Path()
	} else if o, ok := f.fn.Object().(*types.Func); ok && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	name := f.fn.Name()
	// functions passed on are called there and then
	each := func(v ssa.Value, l map[shPath]int) {
		for k := range a.expand(a.of(v), env) {
			if g, ok := a.refs[k.root]; ok && k.p == "" {
				if g = a.unwrap(g); a.in[g.fn] {
					a.run(g.fn, l, env)
				}
			}
		}
	}
	switch {
	case path == "sync" && f.fn.Signature.Recv() != nil:
		switch name {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return a.lockOp(name, args[0], l, env)
		case "Do": // what it ran stays done
			w := copyLocks(l)
			for k := range a.expand(a.of(args[0]), env) {
				w[k.add("!done")] = 2
			}
			each(args[1], w)
			for k := range a.expand(a.of(args[0]), env) {
				l[k.add("!done")] = 1
			}
			return l
		}
		for _, v := range args[1:] {
			each(v, l)
		}
		return l
	case path == "sync/atomic":
		if f.fn.Signature.Recv() == nil && len(args) > 0 {
			if record {
				a.rec(in, a.expand(a.of(args[0]), env), "", !strings.HasPrefix(name, "Load"), true, l)
			}
		}
		return l
	case path == "time" && name == "AfterFunc":
		l0 := map[shPath]int{}
		for _, v := range args {
			each(v, l0)
		}
		return l
	}
	for i, v := range args {
		if _, ok := v.Type().Underlying().(*types.Signature); ok {
			each(v, l)
			continue
		}
		if !refersAny(v.Type()) || !record {
			continue
		}
		write := !readOnlyFn(f.fn)
		if i > 0 && f.fn.Signature.Recv() != nil {
			write = path == "math/rand" || path == "crypto/rand"
		}
		if i == 0 && f.fn.Signature.Recv() != nil && syncSafe(f.fn.Signature.Recv().Type()) {
			continue
		}
		for k := range a.expand(a.of(v), env) {
			sfx := ""
			switch v.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				sfx = "[]"
			}
			a.rec(in, shSet{k: true}, sfx, write, false, l)
		}
	}
	return l
}

// spare reports a slice that may have room behind its end, so that appending
// to it writes memory others may have too.
func (a *shared) spare(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if v.Max != nil {
			return false
		}
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				h, ok := v.High.(*ssa.Const)
				return v.High != nil && !(ok && h.Int64() == ar.Len())
			}
		}
		return v.High != nil || a.spare(v.X, seen)
	case *ssa.MakeSlice:
		l, ok1 := v.Len.(*ssa.Const)
		k, ok2 := v.Cap.(*ssa.Const)
		return v.Len != v.Cap && !(ok1 && ok2 && l.Int64() == k.Int64())
	case *ssa.Phi:
		for _, e := range v.Edges {
			if a.spare(e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return a.spare(v.X, seen)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return a.spare(v.Call.Args[0], seen)
		}
		for _, f := range a.callees(&v.Call, nil) {
			if !a.in[f.fn] {
				continue
			}
			for _, b := range f.fn.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 && a.spare(r.Results[0], seen) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		switch x := v.X.(type) {
		case *ssa.Global, *ssa.Alloc:
			for _, st := range a.storesTo(x) {
				if a.spare(st.Val, seen) {
					return true
				}
			}
		}
	}
	return false
}

// storesTo are the stores to a variable as a whole.
func (a *shared) storesTo(v ssa.Value) []*ssa.Store {
	if a.stores == nil {
		a.stores = map[ssa.Value][]*ssa.Store{}
		fns := a.fns
		for _, pk := range a.p.pkgs {
			if f := pk.Func("init"); f != nil && !a.in[f] {
				fns = append(fns, f)
			}
		}
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						a.stores[st.Addr] = append(a.stores[st.Addr], st)
					}
				}
			}
		}
	}
	return a.stores[v]
}

func (a *shared) lockOp(name string, v ssa.Value, l map[shPath]int, env shEnv) map[shPath]int {
	m := copyLocks(l)
	for k := range a.expand(a.of(v), env) {
		switch name {
		case "Lock":
			m[k] = 2
		case "RLock":
			if m[k] < 1 {
				m[k] = 1
			}
		default:
			delete(m, k)
		}
	}
	return m
}

// entries are the functions that code outside may call, or that are called
// through values, after initialisation.
func (a *shared) entries() []*ssa.Function {
	set := map[*ssa.Function]bool{}
	for _, fn := range a.fns {
		if fn.Parent() == nil && !isInitOnly(fn) {
			if o := fn.Object(); o != nil && o.Exported() && a.reachable(fn) {
				set[fn] = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					v := *op
					if v == callee {
						continue
					}
					// the value escapes where it is kept, not where it is
					// passed on to a call that is followed
					var f *ssa.Function
					switch v := v.(type) {
					case *ssa.Function:
						f = v
					case *ssa.MakeClosure:
						f = v.Fn.(*ssa.Function)
					}
					if f == nil {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						known := c.Common().IsInvoke() == false
						if _, isGo := in.(*ssa.Go); isGo {
							known = false
						}
						if known && len(a.knownCallees(c.Common())) > 0 {
							continue
						}
					}
					if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == v {
						continue
					}
					if st, ok := in.(*ssa.Store); ok {
						// a local variable
						if al, ok := st.Addr.(*ssa.Alloc); ok && !strings.HasSuffix(al.Comment, "lit") && !strings.Contains(al.Comment, "varargs") {
							continue
						}
					}
					if _, ok := in.(*ssa.Return); ok && !isInitOnly(fn) && fn.Object() != nil && !fn.Object().Exported() {
						continue
					}
					g := a.unwrap(shFn{fn: origin(f)})
					if a.in[g.fn] && !isInitOnly(g.fn) {
						set[g.fn] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, fn := range a.fns {
		if set[fn] {
			out = append(out, fn)
		}
	}
	return out
}

// knownCallees are the functions of the repository a call is followed to; a
// function that a parameter stands for is known where it is passed.
func (a *shared) knownCallees(c *ssa.CallCommon) []shFn {
	if f := c.StaticCallee(); f != nil || c.IsInvoke() {
		return a.callees(c, nil)
	}
	fs := a.callees(c, nil)
	for k := range a.of(c.Value) {
		if strings.HasPrefix(k.root, "param#") {
			fs = append(fs, shFn{})
		}
	}
	return fs
}

// reachable reports that code outside the package may call an exported
// function: methods of types that do not get out are called by the package only.
func (a *shared) reachable(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return true
	}
	t := recv.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Exported() {
		return true
	}
	return a.exposedTypes()[n.Origin()]
}

// exposedTypes are the types with unexported names that code outside may come
// by: those of results, variables and fields that are exported, those embedded
// in exported types, and those kept in interfaces.
func (a *shared) exposedTypes() map[*types.Named]bool {
	if a.exposed != nil {
		return a.exposed
	}
	a.exposed = map[*types.Named]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch t := types.Unalias(t).(type) {
		case *types.Named:
			a.exposed[t.Origin()] = true
		case *types.Pointer:
			add(t.Elem())
		case *types.Slice:
			add(t.Elem())
		case *types.Array:
			add(t.Elem())
		case *types.Map:
			add(t.Elem())
		case *types.Chan:
			add(t.Elem())
		}
	}
	for _, fn := range a.fns {
		if o := fn.Object(); o != nil && o.Exported() {
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				add(fn.Signature.Results().At(i).Type())
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok {
					add(m.X.Type())
				}
			}
		}
	}
	for _, pk := range a.p.pkgs {
		for _, m := range pk.Members {
			switch m := m.(type) {
			case *ssa.Global:
				if m.Object() != nil && m.Object().Exported() {
					add(m.Object().Type())
				}
			case *ssa.Type:
				if s, ok := m.Type().Underlying().(*types.Struct); ok && m.Object().Exported() {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Exported() || s.Field(i).Embedded() {
							add(s.Field(i).Type())
						}
					}
				}
			}
		}
	}
	return a.exposed
}

// outside gives the parameters of a function called from outside the shared
// objects that code outside may have: those in exported variables and those
// that exported functions return.
func (a *shared) outside(fn *ssa.Function) shEnv {
	env := shEnv{}
	for _, p := range fn.Params {
		s := shSet{}
		for _, g := range a.roots {
			g, ok := g.(*ssa.Global)
			if !ok || g.Object() == nil || !g.Object().Exported() {
				continue
			}
			if sameType(g.Object().Type(), p.Type()) {
				for c := range a.of(g) {
					s[c.add("*")] = true
				}
			} else if q, ok := p.Type().Underlying().(*types.Pointer); ok && sameType(g.Object().Type(), q.Elem()) {
				for c := range a.of(g) {
					s[c] = true
				}
			}
		}
		for _, f := range a.fns {
			if o := f.Object(); o == nil || !o.Exported() {
				continue
			}
			for i, rs := range a.rets[f] {
				if !sameType(f.Signature.Results().At(i).Type(), p.Type()) {
					continue
				}
				for k := range rs {
					if a.shared[k.root] {
						s[k] = true
					}
				}
			}
		}
		if len(s) > 0 && refersAny(p.Type()) {
			env[paramRoot(p)] = s
		}
	}
	return env
}

// sameType compares types up to type arguments.
func sameType(t, u types.Type) bool {
	if types.Identical(t, u) {
		return true
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		q, ok := types.Unalias(u).(*types.Pointer)
		return ok && sameType(p.Elem(), q.Elem())
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	m, ok := types.Unalias(u).(*types.Named)
	return ok && n.Origin() == m.Origin()
}

// conflict reports that accesses to two places may touch the same memory.
func conflict(a, b shPath) bool {
	if a.root != b.root {
		return false
	}
	if len(a.p) > len(b.p) {
		a, b = b, a
	}
	if !strings.HasPrefix(b.p, a.p) {
		return false
	}
	rest := b.p[len(a.p):]
	return rest == "" || rest[0] == '.' && !strings.ContainsAny(rest, "*[!")
}

func (a *shared) show(c shPath) string {
	name := c.root
	if v, ok := a.roots[c.root].(*ssa.Alloc); ok {
		name = "variable " + v.Comment + " of " + v.Parent().String()
	}
	p := strings.ReplaceAll(c.p, "*.", ".")
	p = strings.ReplaceAll(p, "*[]", "[]")
	return name + strings.TrimSuffix(p, "*")
}

func init() {
	register(&Prop{ID: "C36", Title: "no unguarded shared state", Pkgs: []string{"..."}, Min: 12,
		Rule: "whole-repository effect and lockset analysis: package variables, and variables captured by functions kept in them, and all memory reached from them, are accessed after initialisation only read-only, atomically, or under one common lock (write mode for changes)",
		Run: func(r *Run) {
			a := newShared(r.P)
			a.flow()
			a.captured()
			a.locals()
			for _, fn := range a.entries() {
				a.run(fn, map[shPath]int{}, a.outside(fn))
			}
			by := map[string][]shAcc{}
			for _, ac := range a.accs {
				by[ac.cell.root] = append(by[ac.cell.root], ac)
			}
			var roots []string
			for root := range a.shared {
				if g, ok := a.roots[root].(*ssa.Global); ok && (strings.HasPrefix(g.Name(), "init$") || g.Name() == "_") {
					continue
				}
				roots = append(roots, root)
			}
			sort.Strings(roots)
			for fn := range a.visited {
				r.fns[fn.String()]++
			}
			for _, root := range roots {
				root := root
				r.Obl(a.show(shPath{root, ""})+": accesses after initialisation", func(c *Case) {
					c.site = r.P.Prog.Fset.Position(a.roots[root].Pos()).String()
					c.site = strings.TrimPrefix(c.site, r.P.dir+"/")
					c.entry = root
					accs := by[root]
					c.paths = len(accs) + 1
					c.X.nsteps = len(accs)
					done := map[shPath]bool{}
					for _, w := range accs {
						if !w.write || done[w.cell] {
							continue
						}
						done[w.cell] = true
						atomic := true
						var common map[shPath]int
						var bare *shAcc
						for i := range accs {
							b := &accs[i]
							if !conflict(w.cell, b.cell) {
								continue
							}
							if !b.atomic {
								atomic = false
							}
							held := map[shPath]int{}
							for k, m := range b.locks {
								// the lock of an element guards that element only
								if i := strings.LastIndex(k.p, "[]"); i >= 0 && (k.root != b.cell.root || !strings.HasPrefix(b.cell.p, k.p[:i+2])) {
									continue
								}
								if m == 2 || !b.write {
									held[k] = 2
								}
							}
							if len(held) == 0 && (bare == nil || !b.atomic && bare.atomic) {
								bare = b
							}
							if common == nil {
								common = held
							} else {
								common = meetLocks(common, held)
							}
						}
						if atomic || len(common) > 0 {
							continue
						}
						what := "different locks guard the accesses"
						if bare != nil {
							kind := "read"
							if bare.write {
								kind = "written"
							}
							what = fmt.Sprintf("it is %s without a lock at %s", kind, r.P.posOf(bare.in))
						}
						c.bad(nil, "%s is changed after initialisation (in %s, at %s) and shared by all users of the package, but %s", a.show(w.cell), w.in.Parent(), r.P.posOf(w.in), what)
					}
				})
			}
			r.Obl("code covered by the analysis", func(c *Case) {
				c.entry = "all packages"
				c.paths = a.nctx
				c.X.nsteps = a.sites
				if len(a.visited) < 150 {
					c.bad(nil, "only %d functions were reached", len(a.visited))
				}
			})
		}})
}
