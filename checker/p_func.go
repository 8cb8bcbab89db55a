package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Small functional parts: lazy values (C26), options and results (C27),
// closers (C28), the kill signal handler (C29), optional parameters (C31) and
// the typed pool (C33).

const (
	lazyPkg   = "functionalx/lazyx"
	optPkg    = "functionalx/optionx"
	resPkg    = "functionalx/resultx"
	closePkg  = "iox/managerx/closex"
	usingPkg  = "iox/usingx"
	killPkg   = "osx/closex"
	paramPkg  = "configx/optionalx"
	tpoolPkg  = "syncx/syncpoolx"
	lockxPkg  = "syncx/lockx"
	bitsetPkg = "dsx/setx/bitsetx"
)

func opaqueFn(name string) Val { return VTerm{Fn: name, NN: true} }

// isFn reports whether v is the opaque function of that name.
func isFn(v Val, name string) bool {
	t, ok := v.(VTerm)
	return ok && t.Fn == name
}

// callsOf makes calls of opaque functions events whose results are terms over
// the call.
func (c *Case) callsOf() {
	x := c.X
	x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
		if !strings.HasPrefix(name, "call:") {
			return nil, false
		}
		x.event(st, VTerm{Fn: "call", Args: append([]Val(nil), args...)})
		return ret(st, x.callRes(args, sig)...), true
	}
}

func (x *Exec) callRes(args []Val, sig *types.Signature) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, x.termV(VTerm{Fn: "result " + itoa(i), Args: args}, sig.Results().At(i).Type()))
	}
	return out
}

// calledOnce checks that the trace is one call and the results are its own.
func (c *Case) calledOnce(st *State, q Ret, sig *types.Signature, f Val, args ...Val) string {
	x := c.X
	as := append([]Val{f}, args...)
	if m := x.seqIs(st, "the calls made", st.trace, Seq{{Kind: POne, V: VTerm{Fn: "call", Args: as}}}); m != "" {
		return m
	}
	for i, w := range x.callRes(as, sig) {
		if m := x.valIs(st, "result "+itoa(i), q.vals[i], w); m != "" {
			return m
		}
	}
	return ""
}

func runMatch(r *Run) {
	match := func(pkg, typ, ctor string, first bool) {
		r.Obl(pkg+" "+ctor+" then Match", func(c *Case) {
			x := c.X
			x.InitPkg(r.P.pkgs[pkg])
			t := r.P.Type(pkg, typ)
			ta := typeArgs(t)
			st := NewState()
			fn := r.P.Fn(pkg, ctor)
			var args []Val
			if n := fn.Signature.Params().Len(); n == 1 {
				k := 0
				if !first {
					k = 1
				}
				args = []Val{x.tok("held", ta[k])}
			}
			m := r.P.Fn(pkg, typ+".Match")
			sig := func(i int) *types.Signature {
				return under(m.Signature.Params().At(i).Type()).(*types.Signature)
			}
			f, g := opaqueFn("f"), opaqueFn("g")
			for _, q := range c.Call(st, fn, tmFor(fn, ta), args...) {
				if q.pan != nil || len(q.st.trace) > 0 {
					c.bad(q.st, "the constructor does more than hold the value")
					continue
				}
				c.callsOf()
				want, ws := f, sig(0)
				if !first {
					want, ws = g, sig(1)
				}
				c.Each(c.Call(q.st, m, tmFor(m, ta), q.vals[0], f, g), noPan(func(st *State, p Ret) string {
					return c.calledOnce(st, p, ws, want, args...)
				}))
				x.H.Call = nil
			}
		})
	}
	match(optPkg, "Option", "Some", true)
	match(optPkg, "Option", "None", false)
	match(resPkg, "Result", "Ok", true)
	match(resPkg, "Result", "Err", false)
}

func runParameter(r *Run) {
	r.Obl(paramPkg+" Parameter", func(c *Case) {
		x := c.X
		fn := r.P.Fn(paramPkg, "Parameter")
		st := NewState()
		n := x.lenSym("n")
		ft := fn.Signature.Params().At(1).Type().(*types.Slice).Elem()
		b := x.base("option", ft)
		b.NN = true
		v := x.newSlice(st, whole(b, n), n, n, ft)
		ctor := opaqueFn("constructor")
		// after k options, the parameter is after(k)
		after := func(st *State, k Lin, t types.Type) Val {
			if x.decideEQ(st, k) {
				return VNil{}
			}
			return VTerm{Fn: "after", Args: []Val{VNum{k}}, T: t}
		}
		x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
			if !strings.HasPrefix(name, "call:") {
				return nil, false
			}
			return x.fork(st, func(st *State) []Ret {
				pt := sig.Params().At(0).Type()
				switch f := args[0].(type) {
				case VElem:
					if f.B != b {
						break
					}
					if m := x.valIs(st, "the argument of an option", args[1], after(st, f.Idx, pt)); m != "" {
						c.bad(st, "%s", m)
					}
					x.event(st, VTerm{Fn: "apply", Args: []Val{f}})
					return ret(st, VTerm{Fn: "after", Args: []Val{VNum{f.Idx.AddI(1)}}, T: pt})
				case VTerm:
					if isFn(f, "constructor") {
						if m := x.valIs(st, "the argument of the constructor", args[1], after(st, n, pt)); m != "" {
							c.bad(st, "%s", m)
						}
						x.event(st, VTerm{Fn: "construct"})
						return ret(st, VTerm{Fn: "constructed", T: sig.Results().At(0).Type()})
					}
				}
				x.fail("call of %s", x.show(args[0]))
				return nil
			}), true
		}
		c.Each(c.Call(st, fn, nil, ctor, v), noPan(func(st *State, q Ret) string {
			want := Seq{{Kind: POne, V: VTerm{Fn: "construct"}}}
			if !x.decideEQ(st, n) {
				want = append(Seq{{Kind: PEv, V: VTuple{[]Val{VTerm{Fn: "apply", Args: []Val{VElem{b, S(0)}}}}}, From: K(0), To: n}}, want...)
			}
			return first(x.seqIs(st, "what is called", st.trace, want),
				x.valIs(st, "result", q.vals[0], VTerm{Fn: "constructed"}))
		}))
	})
}

func runLazy(r *Run) {
	t := r.P.Type(lazyPkg, "Lazy")
	ta := typeArgs(t)
	r.Obl(lazyPkg+" Lazy", func(c *Case) {
		x := c.X
		x.InitPkg(r.P.pkgs[lazyPkg])
		ctorFn, getFn := r.P.Fn(lazyPkg, "New"), r.P.Fn(lazyPkg, "Lazy.Get")
		ctor := opaqueFn("constructor")
		var self int
		type access struct {
			f  int
			at string
		}
		// Other requests may have run up to any point where they let go of
		// the value: seen collects what they leave behind there.
		safe := func(st *State, mode int) bool {
			_, in := st.ghost["once"]
			if in {
				return true
			}
			for _, l := range st.locks {
				if l.Mode >= mode {
					return true
				}
			}
			return false
		}
		type left struct {
			v         Val
			done, mid bool // of the sync.Once
		}
		getting := false
		var start string
		var once Val
		seen := map[string]*left{}
		var found []string
		shown := func(st *State) {
			v := st.objs[self].V
			l := &left{v: v, mid: st.ghost["once"] != nil}
			if once != nil {
				l.done, _ = x.factOf(st, Fact{"once", []Val{once}})
			}
			k := x.key(v) + fmt.Sprint(l.done, l.mid)
			if getting && x.key(v) != start && seen[k] == nil {
				seen[k] = l
				found = append(found, k)
			}
		}
		others := func(st *State) {
			if !getting || st.ghost["alone"] != nil {
				delete(st.ghost, "alone")
				return
			}
			if x.key(st.objs[self].V) != start || st.ghost["built"] != nil {
				return
			}
			alts := []alt{{do: func(s *State) { s.ghost["alone"] = bconst(true) }}}
			for _, k := range found {
				l := seen[k]
				alts = append(alts, alt{do: func(s *State) {
					s.ghost["alone"], s.ghost["other"] = bconst(true), bconst(true)
					o := *s.objs[self]
					o.V = l.v
					s.objs[self] = &o
					if l.done {
						x.setFact(s, Fact{"once", []Val{once}}, true)
					}
					if l.mid {
						s.ghost["mid"] = bconst(true)
					}
				}})
			}
			panic(needSplit{alts})
		}
		x.H.Lock = func(st *State, p Val, mode int, lock bool) {
			if lock {
				others(st)
			} else {
				shown(st)
				if getting && x.key(st.objs[self].V) != start {
					st.ghost["after"] = bconst(true)
				}
			}
		}
		x.H.Atomic = func(st *State, op string, p Val, args []Val, t types.Type) ([]Ret, bool) {
			if q, ok := p.(VPtr); !ok || q.Obj != self {
				return nil, false
			}
			if !safe(st, 2) {
				others(st)
			}
			keep := st.ghost["after"]
			st.ghost["after"] = bconst(true)
			old := x.atomicLoad(st, p, t)
			if keep == nil {
				delete(st.ghost, "after")
			}
			put := func(v Val) {
				st.ghost["atomic"] = bconst(true)
				x.atomicStore(st, p, v, t)
				delete(st.ghost, "atomic")
				shown(st)
			}
			switch op {
			case "Load":
				if x.key(st.objs[self].V) != start {
					st.ghost["after"] = bconst(true) // what was written before that is seen
				}
				return ret(st, old), true
			case "Store":
				put(args[0])
				return ret(st), true
			case "CompareAndSwap":
				if !x.decide(st, x.equal(st, old, args[0], t)) {
					return ret(st, bconst(false)), true
				}
				put(args[1])
				return ret(st, bconst(true)), true
			case "Swap":
				put(args[0])
				return ret(st, old), true
			}
			return nil, false
		}
		var bare []access           // unprotected reads
		written := map[int]string{} // fields written by Get
		x.H.Load = func(st *State, p Val, t types.Type) {
			if q, ok := p.(VPtr); ok && getting && q.Obj == self && len(q.Path) > 0 && !safe(st, 1) && st.ghost["after"] == nil {
				bare = append(bare, access{q.Path[0].F, x.where()})
			}
		}
		x.H.Store = func(st *State, p Val, v Val) {
			q, ok := p.(VPtr)
			if !ok || !getting || q.Obj != self {
				return
			}
			if len(q.Path) == 0 {
				c.bad(st, "overwrites the whole value")
				return
			}
			if st.ghost["atomic"] != nil {
				return
			}
			written[q.Path[0].F] = x.where()
			if !safe(st, 2) {
				c.bad(st, "writes %s without mutual exclusion (at %s)", structOf(t).Field(q.Path[0].F).Name(), x.where())
			}
		}
		x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
			switch {
			case name == "(*sync.Once).Do":
				return x.fork(st, func(st *State) []Ret {
					f := Fact{"once", []Val{args[0]}}
					if p, ok := args[0].(VPtr); !ok || p.Obj != self {
						x.fail("a sync.Once outside the lazy value")
					}
					if st.ghost["mid"] != nil {
						x.fail("a request waits for another one that is on its way")
					}
					once = args[0]
					var out []Ret
					if v, ok := x.factOf(st, f); ok && v {
						out = ret(st)
					} else {
						x.setFact(st, f, true)
						st.ghost["once"] = bconst(true)
						out = x.invoke(st, args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false))
					}
					for _, q := range out {
						delete(q.st.ghost, "once")
						q.st.ghost["after"] = bconst(true)
					}
					return out
				}), true
			case strings.HasPrefix(name, "call:"):
				if !isFn(args[0], "constructor") {
					return nil, false
				}
				if !safe(st, 2) {
					c.bad(st, "calls the constructor without mutual exclusion (at %s)", x.where())
				}
				x.event(st, VTerm{Fn: "construct"})
				st.ghost["built"] = bconst(true)
				return ret(st, x.termV(VTerm{Fn: "constructed"}, sig.Results().At(0).Type())), true
			}
			return nil, false
		}
		count := func(st *State) int {
			n := 0
			for _, p := range st.trace {
				if p.Kind != POne {
					x.fail("events in a loop")
				}
				if isFn(p.V, "construct") {
					n++
				}
			}
			return n
		}
		c.Each(c.Call(NewState(), ctorFn, tmFor(ctorFn, ta), ctor), noPan(func(st *State, q Ret) string {
			if len(st.trace) > 0 {
				return "the constructor is called before the first request"
			}
			p, ok := q.vals[0].(VPtr)
			if !ok {
				return "New returns " + x.show(q.vals[0])
			}
			self, getting = p.Obj, true
			start = x.key(st.objs[self].V)
			want := x.termV(VTerm{Fn: "constructed"}, ta[0])
			var step func(st *State, k int) string
			step = func(st *State, k int) string {
				before := x.key(st.objs[self].V)
				for _, q := range c.Call(st, getFn, tmFor(getFn, ta), p) {
					st := q.st
					delete(st.ghost, "after")
					if q.pan != nil {
						return "Get " + panMsg(q.pan)
					}
					if len(st.locks) > 0 {
						return "Get returns holding a lock"
					}
					n := count(st)
					if st.ghost["other"] != nil {
						n++
					}
					if n != 1 {
						return "after " + itoa(k) + " requests the constructor has run " + itoa(n) + " times"
					}
					if m := x.valIs(st, "result of a request", q.vals[0], want); m != "" {
						return m
					}
					if k == 1 {
						if m := step(st, 2); m != "" {
							return m
						}
					} else if x.key(st.objs[self].V) != before {
						return "a later request changes the value"
					}
				}
				return ""
			}
			m := ""
			for have := -1; m == "" && have < len(found); {
				have = len(found)
				m = step(st, 1)
			}
			for _, a := range bare {
				if w, ok := written[a.f]; ok && m == "" {
					m = "reads " + structOf(t).Field(a.f).Name() + " without mutual exclusion (at " + a.at + "), written at " + w
				}
			}
			return m
		}))
	})
}

// defaultManager is the manager the package's own functions act on, and the
// object of the exported variable that holds it or points to it.
func defaultManager(c *Case, st *State, mt types.Type) (p VPtr, global int) {
	x := c.X
	x.atStart = true
	pk := c.r.P.pkgs[closePkg]
	x.InitPkg(pk)
	for _, m := range sortedMembers(pk) {
		g, ok := m.(*ssa.Global)
		if !ok || !g.Object().Exported() {
			continue
		}
		id := x.global(st, g)
		t := deref(g.Type())
		if types.Identical(t, mt) {
			return VPtr{Obj: id}, id
		}
		if types.Identical(t, types.NewPointer(mt)) {
			p, ok := st.objs[id].V.(VPtr)
			if !ok || len(p.Path) > 0 {
				x.fail("the default manager is %s", x.show(st.objs[id].V))
			}
			return p, id
		}
	}
	x.fail("no default manager")
	return
}

func runClosers(r *Run) {
	// a result is nil or lists exactly the failures, in order
	reported := func(c *Case, st *State, v Val, b *Base, n Lin, calls Seq) string {
		x := c.X
		if x.decideEQ(st, n) {
			return x.valIs(st, "result without closers", v, VNil{})
		}
		tm := VTerm{Fn: "method", Args: []Val{VElem{b, S(0)}}}
		for _, p := range calls {
			if p.Kind == PEv {
				if t, ok := p.V.(VTuple).F[0].(VTerm); ok {
					tm = t
				}
			}
		}
		rb := x.base("res0:"+x.key(tm)+"#0", types.Universe.Lookup("error").Type())
		if f, ok := v.(VIface); ok {
			v = f.V
		}
		want := Piece{Kind: PFilt, B: rb, From: K(0), To: n, Pred: &Pred{F: Fact{"nil", []Val{VElem{rb, S(0)}}}, Neg: true}}
		if _, ok := v.(VNil); ok {
			if !x.filtEmpty(st, want) {
				return "reports no failure although a closer may have failed"
			}
			return ""
		}
		s, ok := v.(VSlice)
		if !ok {
			return "the result is " + x.show(v) + ", expected the failures in order"
		}
		if !x.decideGE(st, s.Len.AddI(-1)) {
			return "the result is an empty list, expected nil"
		}
		got, ln := x.content(st, v)
		want.N = ln
		return x.seqIs(st, "the failures reported", got, Seq{want})
	}
	// the calls of Close in a trace
	closes := func(c *Case, st *State, b *Base, n Lin) (Seq, string) {
		x := c.X
		var calls Seq
		for _, p := range st.trace {
			if p.Kind == POne {
				if t, ok := p.V.(VTerm); ok && (t.Fn == "lock" || t.Fn == "unlock" || t.Fn == "f") {
					continue
				}
			}
			calls = append(calls, p)
		}
		if x.decideEQ(st, n) {
			if len(calls) > 0 {
				return nil, "calls something although there are no closers"
			}
			return nil, ""
		}
		if len(calls) > 0 && calls[0].Kind == PEv {
			if t, ok := calls[0].V.(VTuple); ok && len(t.F) == 1 {
				if m, ok := t.F[0].(VTerm); ok && strings.HasSuffix(m.Fn, "Close") && len(m.Args) > 0 {
					return calls, x.seqIs(st, "the calls made", calls, Seq{{Kind: PEv, V: VTuple{[]Val{VTerm{Fn: m.Fn, Args: []Val{VElem{b, S(0)}}}}}, From: K(0), To: n}})
				}
			}
		}
		if e := calls; len(e) == 1 && e[0].Kind == POne {
			if m, ok := e[0].V.(VTerm); ok && strings.HasSuffix(m.Fn, "Close") {
				return Seq{{Kind: PEv, V: VTuple{[]Val{VTerm{Fn: m.Fn, Args: []Val{VElem{b, S(0)}}}}}}}, x.seqIs(st, "the calls made", calls, Seq{{Kind: PEv, V: VTuple{[]Val{VTerm{Fn: m.Fn, Args: []Val{VElem{b, S(0)}}}}}, From: K(0), To: n}})
			}
		}
		return nil, "the calls made are " + x.showSeq(calls) + ", expected one Close of each closer in order"
	}
	ct := r.P.Fn(usingPkg, "Close").Signature.Params().At(0).Type().(*types.Slice).Elem()
	r.Obl(usingPkg+" Close", func(c *Case) {
		x := c.X
		st := NewState()
		n := x.lenSym("n")
		b := x.base("closer", ct)
		b.NN = true
		v := x.newSlice(st, whole(b, n), n, n, ct)
		x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
			if !strings.HasPrefix(name, "call:") || !isFn(args[0], "f") {
				return nil, false
			}
			if len(st.trace) > 0 {
				c.bad(st, "closes before the function has run")
			}
			x.event(st, VTerm{Fn: "f"})
			p := st.clone()
			return []Ret{{st: st}, {st: p, pan: &Pan{Kind: "callback", Msg: "callback panics", Pos: x.where(), Fn: x.curFn()}}}, true
		}
		fn := r.P.Fn(usingPkg, "Close")
		for _, q := range c.Call(st, fn, nil, v) {
			if q.pan != nil || len(q.st.trace) > 0 {
				c.bad(q.st, "calls something before the scoped function is given")
				continue
			}
			rs := x.invoke(q.st, q.vals[0], []Val{opaqueFn("f")}, under(fn.Signature.Results().At(0).Type()).(*types.Signature))
			c.Each(rs, func(st *State, q Ret) string {
				ran := 0
				for _, p := range st.trace {
					if p.Kind == POne && isFn(p.V, "f") {
						ran++
					}
				}
				if ran != 1 {
					return "the function runs " + itoa(ran) + " times"
				}
				calls, m := closes(c, st, b, n)
				if m != "" {
					return m
				}
				if q.pan != nil {
					if q.pan.Kind != "callback" {
						return panMsg(q.pan)
					}
					return ""
				}
				return reported(c, st, q.vals[0], b, n, calls)
			})
		}
	})
	mt := r.P.Type(closePkg, "CloseManager")
	fL := fieldBy(mt, 0, isMutex)
	fS := fieldBy(mt, 0, func(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok })
	guarded := map[int]bool{}
	for i := 0; i < structOf(mt).NumFields(); i++ {
		guarded[i] = i != fL && !isSync(structOf(mt).Field(i).Type())
	}
	obl := func(meth string, f func(c *Case, st *State, p VPtr, b *Base, n Lin, call func(...Val) []Ret)) {
		r.Obl(closePkg+" "+meth, func(c *Case) {
			x := c.X
			st := NewState()
			n := x.lenSym("n")
			b := x.base("closer", ct)
			b.NN = true
			name, _, _ := strings.Cut(meth, " ")
			var p VPtr
			own := strings.Contains(name, ".")
			def := -1
			if own {
				p = VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: mt, V: x.zero(mt)})}
			} else {
				p, def = defaultManager(c, st, mt)
			}
			slack := x.lenSym("slack")
			s := x.newSlice(st, append(whole(b, n), Piece{Kind: PMix, N: slack}), n, n.Add(slack), ct)
			x.setF(st, p, fS, s)
			lock := VPtr{Obj: p.Obj, Path: []PE{{F: fL}}}
			c.discipline(&guard{lock: func(*State) Val { return lock }, owner: p.Obj, fields: guarded, objs: map[int]bool{s.Obj: true}})
			c.setExtra(st, p, mt, &n, fL, fS)
			fn := r.P.Fn(closePkg, name)
			f(c, st, p, b, n, func(args ...Val) []Ret {
				if own {
					args = append([]Val{p}, args...)
				}
				rs := c.Call(st, fn, nil, args...)
				x.H.Load, x.H.Store = nil, nil
				for _, q := range rs {
					if len(q.st.locks) > 0 {
						c.bad(q.st, "returns holding the lock")
					}
					if d, ok := q.st.objs[def]; ok && def != p.Obj && x.key(d.V) != x.key(p) {
						c.bad(q.st, "replaces the default manager, without mutual exclusion")
					}
				}
				return rs
			})
		})
	}
	list := func(c *Case, st *State, p VPtr, want Seq) string {
		got, _ := c.X.content(st, c.X.getF(st, p, fS))
		n := want.Len()
		return first(c.X.seqIs(st, "the registered closers", got, want), c.okExtra(st, p, mt, &n, fL, fS))
	}
	for _, pre := range []string{"CloseManager.", ""} {
		obl(pre+"Append", func(c *Case, st *State, p VPtr, b *Base, n Lin, call func(...Val) []Ret) {
			k := c.X.tok("closer", ct)
			c.Each(call(k), noPan(func(st *State, q Ret) string {
				return list(c, st, p, append(whole(b, n), Piece{Kind: POne, V: k}))
			}))
		})
		obl(pre+"Close", func(c *Case, st *State, p VPtr, b *Base, n Lin, call func(...Val) []Ret) {
			x := c.X
			c.Each(call(), noPan(func(st *State, q Ret) string {
				calls, m := closes(c, st, b, n)
				if m != "" {
					return m
				}
				_, left := x.content(st, x.getF(st, p, fS))
				m = first(reported(c, st, q.vals[0], b, n, calls), c.okExtra(st, p, mt, &left, fL, fS))
				if m != "" {
					return m
				}
				// the failures are had back from the result
				c.Each(c.Call(st, r.P.Fn(closePkg, "AsErrs"), nil, q.vals[0]), noPan(func(st *State, a Ret) string {
					if !x.decide(st, a.vals[1].(VBool).B) {
						if m := reported(c, st, VNil{}, b, n, calls); m != "" {
							return "AsErrs does not find the failures reported: " + m
						}
						return x.valIs(st, "failures had from no result", a.vals[0], VNil{})
					}
					if x.isNil(st, q.vals[0]) {
						return "AsErrs finds failures in no result"
					}
					return reported(c, st, a.vals[0], b, n, calls)
				}))
				return ""
			}))
		})
		obl(pre+"Close with a panicking closer", func(c *Case, st *State, p VPtr, b *Base, n Lin, call func(...Val) []Ret) {
			x := c.X
			x.opPan = true
			c.Each(call(), func(st *State, q Ret) string { return "" })
			x.opPan = false
		})
	}
	r.Obl(closePkg+" New", func(c *Case) {
		c.Each(c.Call(NewState(), r.P.Fn(closePkg, "New"), nil), noPan(func(st *State, q Ret) string {
			p, ok := q.vals[0].(VPtr)
			if !ok || !st.objs[p.Obj].Fresh {
				return "New returns " + c.X.show(q.vals[0])
			}
			return list(c, st, p, nil)
		}))
	})
}

func init() {
	register(&Prop{ID: "C26", Title: "lazy values", Pkgs: []string{lazyPkg}, Min: 1,
		Rule: "abstract interpretation of a new lazy value and of requests one after another, up to the state repeating: no constructor call before the first request, one in all, every request returns its result; constructor calls and writes of the value only under mutual exclusion (sync.Once or a lock), and reads of what is written only under it or after it",
		Run:  runLazy})
	register(&Prop{ID: "C27", Title: "option and result matching", Pkgs: []string{optPkg, resPkg}, Min: 4,
		Rule: "for each constructor with an opaque value of an opaque type, Match makes exactly one call, of the matching function with the held value, and returns that call's results",
		Run:  runMatch})
	register(&Prop{ID: "C28", Title: "closers", Pkgs: []string{usingPkg, closePkg}, Min: 5,
		Rule: "over an arbitrary number of closers with arbitrary results the calls are exactly one Close per closer in order, the result is nil or the filter of the non-nil results in order, the scoped function runs once, first, also if it panics, and the manager's list is touched only under its lock, released on every way out",
		Run:  runClosers})
	register(&Prop{ID: "C31", Title: "optional parameters", Pkgs: []string{paramPkg}, Min: 1,
		Rule: "over an arbitrary number of opaque options the calls are exactly each option in order, each with the result of the one before (the first with nil), then the constructor with the last result, whose result is returned",
		Run:  runParameter})
}
