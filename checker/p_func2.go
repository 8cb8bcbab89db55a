package main

import (
	"go/types"
	"strings"
)

// The kill signal handler (C29) and the typed pool (C33).

func runKill(r *Run) {
	r.Obl(killPkg+" HandleKillSig", func(c *Case) {
		x := c.X
		fn := r.P.Fn(killPkg, "HandleKillSig")
		st := NewState()
		handler := opaqueFn("handler")
		var sigs, done Val
		bad := func(st *State, f string, a ...any) { c.bad(st, f+" (at "+x.where()+")", a...) }
		// phases of the goroutine: 0 waiting for the first signal, 1 got it,
		// 2 the handler has returned, 3 completion announced
		phase := func(st *State) int {
			n, _ := x.num(st.ghost["phase"]).constInt()
			return int(n)
		}
		set := func(st *State, k int) { st.ghost["phase"] = VNum{K(int64(k))} }
		running := false
		x.H.Event = func(st *State, ev VTerm) {
			if !running || phase(st) == 9 {
				return
			}
			switch ev.Fn {
			case "recv", "recvclosed":
				if x.key(ev.Args[0]) != x.key(sigs) {
					if p := phase(st); p == 1 || p == 2 {
						bad(st, "waits for something else before announcing completion")
					}
					return
				}
				if ev.Fn == "recvclosed" {
					// no path: nothing closes this channel
					set(st, 9)
					return
				}
				switch phase(st) {
				case 0:
					set(st, 1)
				case 1, 2:
					bad(st, "waits for another signal before announcing completion")
				}
			case "handler":
				if p := phase(st); p != 1 {
					bad(st, "calls the handler %s", []string{"before a signal", "", "a second time", "after completion"}[p])
				}
				set(st, 2)
			case "close":
				if x.key(ev.Args[0]) != x.key(done) {
					bad(st, "closes another channel")
					return
				}
				if p := phase(st); p != 2 {
					bad(st, "announces completion %s", []string{"before a signal", "before the handler has returned", "", "twice"}[p])
				}
				set(st, 3)
			case "send", "lock", "rlock", "go":
				if p := phase(st); p == 1 || p == 2 {
					bad(st, "%s before completion is announced", ev.Fn)
				}
			}
		}
		x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
			switch {
			case name == "os/signal.Notify":
				if running {
					bad(st, "registers for signals when the caller has already gone on")
				}
				x.event(st, VTerm{Fn: "notify", Args: []Val{args[0], x.snapshot(st, args[1])}})
				return ret(st), true
			case name == "os/signal.Stop", name == "os/signal.Reset", name == "os/signal.Ignore":
				if p := 0; running {
					p = phase(st)
					if p < 3 {
						bad(st, "stops handling signals before completion")
					}
				}
				return ret(st), true
			case strings.HasPrefix(name, "(*log.Logger)."), strings.HasPrefix(name, "log."):
				return ret(st), true
			case strings.HasPrefix(name, "call:") && isFn(args[0], "handler"):
				x.event(st, VTerm{Fn: "handler"})
				return ret(st), true
			}
			return nil, false
		}
		if _, ok := under(fn.Signature.Results().At(0).Type()).(*types.Struct); !ok {
			x.fail("the result is no struct")
		}
		for _, q := range c.Call(st, fn, nil, handler, VTerm{Fn: "logger", NN: true, T: fn.Signature.Params().At(1).Type()}) {
			if q.pan != nil {
				c.bad(q.st, "%s", panMsg(q.pan))
				continue
			}
			res, ok := q.vals[0].(VStruct)
			if !ok {
				x.fail("the result is %s", x.show(q.vals[0]))
			}
			done = nil
			for _, f := range res.F {
				if t, ok := f.(VTerm); ok && strings.HasPrefix(t.Fn, "chan") {
					done = f
				}
			}
			if done == nil {
				c.bad(q.st, "the result holds no channel of its own")
				continue
			}
			// what was set up
			var body *VTerm
			sigs = nil
			for _, p := range q.st.trace {
				t, ok := p.V.(VTerm)
				if p.Kind != POne || !ok {
					x.fail("set up in a loop")
				}
				switch t.Fn {
				case "notify":
					if sigs != nil {
						x.fail("two registrations")
					}
					sigs = t.Args[0]
					got := map[int64]bool{}
					for _, e := range t.Args[1].(VArr).C {
						if g, ok := e.V.(VTerm); ok && e.Kind == POne {
							if n, ok := map[string]int64{"global:os.Interrupt": 2, "global:os.Kill": 9}[g.Fn]; ok {
								got[n] = true
								continue
							}
						}
						f, ok := e.V.(VIface)
						if e.Kind != POne || !ok || !isNamed(f.T, "syscall.Signal") {
							x.fail("registers for %s", x.show(t.Args[1]))
						}
						n, _ := x.num(f.V).constInt()
						got[n] = true
					}
					for _, n := range []int64{2, 3, 15} {
						if !got[n] {
							c.bad(q.st, "does not handle signal %d", n)
						}
						delete(got, n)
					}
					for n := range got {
						c.bad(q.st, "handles signal %d too", n)
					}
					if n, ok := x.num(t.Args[0].(VTerm).Args[0]).constInt(); !ok || n < 1 {
						c.bad(q.st, "the channel may lose the first signal: it has no buffer")
					}
				case "go":
					if body != nil {
						x.fail("two goroutines")
					}
					b := t
					body = &b
				default:
					c.bad(q.st, "%s before a signal", t.Fn)
				}
			}
			if sigs == nil {
				c.bad(q.st, "registers for no signals before returning")
				continue
			}
			if body == nil {
				c.bad(q.st, "nothing waits for the signals")
				continue
			}
			g := q.st.clone()
			g.trace = nil
			g.ghost["phase"] = VNum{K(0)}
			running = true
			sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
			rs := x.invoke(g, body.Args[0], body.Args[1:], sig)
			running = false
			n := 0
			for _, e := range rs {
				// nothing closes the channel of signals
				if phase(e.st) == 9 {
					continue
				}
				n++
				if e.pan != nil {
					c.bad(e.st, "%s", panMsg(e.pan))
				} else if p := phase(e.st); p != 3 {
					c.bad(e.st, "stops %s", []string{"before a signal", "without calling the handler", "without announcing completion"}[p])
				}
			}
			c.Each([]Ret{{st: q.st}}, func(*State, Ret) string { return "" })
		}
	})
}

func runTypedPool(r *Run) {
	t := r.P.Type(tpoolPkg, "Pool")
	ta := typeArgs(t)
	pT := types.NewPointer(ta[0])
	// what Init sets up: the pool and what makes objects for it
	var made []int
	for i := 0; i < structOf(t).NumFields(); i++ {
		switch structOf(t).Field(i).Type().Underlying().(type) {
		case *types.Signature, *types.Interface:
			made = append(made, i)
		}
	}
	setup := func(c *Case) {
		x := c.X
		x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
			switch {
			case name == "(*sync.Pool).Get":
				return x.fork(st, func(st *State) []Ret {
					p, ok := args[0].(VPtr)
					if !ok {
						x.fail("pool at %s", x.show(args[0]))
					}
					// what was put back, if the pool kept it, ...
					s := st.clone()
					x.event(s, VTerm{Fn: "recycled"})
					out := ret(s, VIface{pT, VTerm{Fn: "put before", T: pT}})
					// ... or what New makes
					o := st.objs[p.Obj]
					pt := x.P.Prog.ImportedPackage("sync").Type("Pool").Type()
					pl := x.getPath(st, o.V, p.Path, o.T)
					f := x.field(st, pl, fieldBy(pt, 0, func(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }, "New"), pt)
					if x.isNil(st, f) {
						return append(out, ret(st, VNil{})...)
					}
					fs := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.NewInterfaceType(nil, nil))), false)
					return append(out, x.invoke(st, f, nil, fs)...)
				}), true
			case name == "(*sync.Pool).Put":
				x.event(st, VTerm{Fn: "pooled", Args: []Val{args[1]}})
				return ret(st), true
			case strings.HasPrefix(name, "call:") && isFn(args[0], "New"):
				x.event(st, VTerm{Fn: "made"})
				return ret(st, VTerm{Fn: "new object", T: pT}), true
			}
			return nil, false
		}
	}
	inited := func(c *Case) (*State, VPtr) {
		x := c.X
		st := NewState()
		p := x.newMem(st, x.zero(t), t)
		fn := r.P.Fn(tpoolPkg, "Pool.Init")
		rs := c.Call(st, fn, tmFor(fn, ta), p, opaqueFn("New"))
		if len(rs) != 1 || rs[0].pan != nil {
			x.fail("Init has %d outcomes", len(rs))
		}
		if len(rs[0].st.trace) > 0 {
			c.bad(rs[0].st, "Init does more than keep the constructor")
		}
		rs[0].st.trace = nil
		if m := c.okExtra(rs[0].st, p, t, nil, made...); m != "" {
			c.bad(rs[0].st, "after Init %s", m)
		}
		c.setExtra(rs[0].st, p, t, nil, made...)
		return rs[0].st, p
	}
	r.Obl(tpoolPkg+" Pool.Get", func(c *Case) {
		x := c.X
		setup(c)
		st, p := inited(c)
		fn := r.P.Fn(tpoolPkg, "Pool.Get")
		var kinds []string
		c.Each(c.Call(st, fn, tmFor(fn, ta), p), noPan(func(st *State, q Ret) string {
			if len(st.trace) != 1 || st.trace[0].Kind != POne {
				return "one Get does not take exactly one object: " + x.showSeq(st.trace)
			}
			want := VTerm{Fn: "put before", T: pT}
			if isFn(st.trace[0].V, "made") {
				want.Fn = "new object"
			} else if !isFn(st.trace[0].V, "recycled") {
				return "does " + x.showSeq(st.trace)
			}
			kinds = append(kinds, want.Fn)
			return first(x.valIs(st, "result", q.vals[0], want), c.okExtra(st, p, t, nil, made...))
		}))
		if len(kinds) < 2 {
			c.bad(st, "does not take objects from the pool")
		}
	})
	r.Obl(tpoolPkg+" Pool.Put", func(c *Case) {
		x := c.X
		setup(c)
		st, p := inited(c)
		fn := r.P.Fn(tpoolPkg, "Pool.Put")
		o := VTerm{Fn: "object", T: pT, NN: true}
		c.Each(c.Call(st, fn, tmFor(fn, ta), p, o), noPan(func(st *State, q Ret) string {
			return first(x.seqIs(st, "what is put back", st.trace, Seq{{Kind: POne, V: VTerm{Fn: "pooled", Args: []Val{VIface{pT, o}}}}}), c.okExtra(st, p, t, nil, made...))
		}))
	})
}

func init() {
	register(&Prop{ID: "C29", Title: "kill signals", Pkgs: []string{killPkg}, Min: 1,
		Rule: "typestate over every path of the set-up and of the goroutine it starts: registration for exactly SIGINT, SIGQUIT and SIGTERM on a buffered channel before the call returns, then first signal, one handler call, one close of the completion channel, in this order and with no other wait in between, and neither handler nor close ever again",
		Run:  runKill})
	register(&Prop{ID: "C33", Title: "typed pool", Pkgs: []string{tpoolPkg}, Min: 2,
		Rule: "after Init with an opaque constructor, each Get takes exactly one object from the underlying pool (one made by the constructor in that call or one put back) and returns that object, each Put puts back exactly the object given, and no type assertion can fail",
		Run:  runTypedPool})
}
