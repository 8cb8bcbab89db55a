package main

import (
	"go/types"
	"strings"
)

// The sleeper (C15, C35): every method is interpreted with what other
// goroutines may do made explicit at each of its accesses to shared memory
// (the flag that says a sleep is in progress, and the wakeup signal), and every
// effect of its own is judged against what the others rely on.

const sleepPkg = "timex/sleepx"

type sleeper struct {
	c             *Case
	x             *Exec
	t             *types.Named
	self          VPtr
	mu, flag, sig int
	cancel        int  // -1: the signal is a channel
	atomic        bool // the flag may be read without the lock
	renews        bool // every sleep makes its own signal
	asked         Val
	askT          types.Type
}

func (s *sleeper) has(st *State, k string) bool { _, ok := st.ghost[k]; return ok }
func (s *sleeper) put(st *State, k string)      { st.ghost[k] = bconst(true) }
func (s *sleeper) sec(st *State) int64 {
	n, _ := s.x.num(st.ghost["sec"]).constInt()
	return n
}

// locked reports whether the sleeper's lock is held.
func (s *sleeper) locked(st *State) bool {
	return s.x.holds(st, VPtr{Obj: s.self.Obj, Path: []PE{{F: s.mu}}}, 2)
}

func (s *sleeper) bad(st *State, f string, a ...any) {
	s.c.bad(st, f+" (at "+s.x.where()+")", a...)
}

// read is what a look at the flag finds.
func (s *sleeper) read(st *State) bool {
	if s.has(st, "mine") {
		return true
	}
	in := s.locked(st)
	if !in && !s.atomic {
		s.bad(st, "reads the flag without the lock")
	}
	// nobody else starts a sleep without the lock; one may end at any time
	// if the flag is atomic
	if in {
		if v, ok := st.ghost["seen in section"]; ok {
			if b := v.(VBool).B.C; !b || !s.atomic {
				return b
			}
		}
	}
	b := s.x.choice(st, "slept?")
	st.ghost["seen"] = bconst(b)
	if in {
		st.ghost["seen in section"] = bconst(b)
	}
	return b
}

func (s *sleeper) write(st *State, v bool) {
	in := s.locked(st)
	if !in && !s.atomic {
		s.bad(st, "writes the flag without the lock")
	}
	seen, ok := st.ghost["seen in section"]
	free := ok && in && !seen.(VBool).B.C
	switch {
	case v && s.has(st, "mine"):
	case v && free:
		s.put(st, "mine")
		s.put(st, "claimed")
		delete(st.ghost, "seen in section")
		st.ghost["claim section"] = st.ghost["sec"]
	case v && in && ok:
		// was set, and stays so
		if s.atomic {
			s.bad(st, "sets the flag after seeing it set: the sleep in progress may have ended in between")
		}
	case v:
		s.bad(st, "claims the sleeper outside the critical section in which it found it free")
	case s.has(st, "mine"):
		delete(st.ghost, "mine")
		s.put(st, "ended")
	case free:
	default:
		s.bad(st, "ends a sleep that is not its own")
	}
}

func (s *sleeper) flagOf(v Val) bool {
	switch v := v.(type) {
	case VBool:
		if v.B.Kind == 'c' {
			return v.B.C
		}
	case VNum:
		if n, ok := v.L.constInt(); ok && (n == 0 || n == 1) {
			return n == 1
		}
	}
	s.x.fail("flag value %s", s.x.show(v))
	return false
}

func (s *sleeper) flagVal(v bool, t types.Type) Val {
	if isBool(t) {
		return bconst(v)
	}
	if v {
		return VNum{K(1)}
	}
	return VNum{K(0)}
}

func (s *sleeper) isField(p Val, f int) bool {
	q, ok := p.(VPtr)
	return ok && q.Obj == s.self.Obj && len(q.Path) > 0 && q.Path[0].F == f
}

// signals are named after the section or the call that made them; pair gives
// the two halves.
func (s *sleeper) pair(name string) (Val, Val) {
	if s.cancel < 0 {
		return VTerm{Fn: "signal " + name, NN: true}, nil
	}
	return VTerm{Fn: "signal " + name, NN: true}, VTerm{Fn: "cancel " + name, NN: true}
}

func sigName(v Val) (string, bool) {
	t, ok := v.(VTerm)
	if ok && strings.HasPrefix(t.Fn, "chan") {
		return "made here " + itoa(t.Uniq), true
	}
	if !ok || !strings.HasPrefix(t.Fn, "signal ") {
		return "", false
	}
	return t.Fn[7:], true
}

// current is the name of the signal held by the fields.
func (s *sleeper) current(st *State) string {
	v := s.x.getF(st, s.self, s.sig)
	n, ok := sigName(v)
	if !ok {
		if _, isNil := v.(VNil); isNil {
			return ""
		}
		s.x.fail("signal %s", s.x.show(v))
	}
	if s.cancel >= 0 {
		if t, ok := s.x.getF(st, s.self, s.cancel).(VTerm); !ok || t.Fn != "cancel "+n {
			s.bad(st, "the context and its cancel function do not match")
		}
	}
	return n
}

func (s *sleeper) hooks() {
	x := s.x
	x.H.Lock = func(st *State, p Val, mode int, lock bool) {
		if !s.isField(p, s.mu) {
			x.fail("another lock")
		}
		if mode != 2 && lock {
			x.fail("read lock")
		}
		delete(st.ghost, "seen in section")
		if lock {
			st.ghost["sec"] = VNum{K(s.sec(st) + 1)}
			a, b := s.pair(itoa(int(s.sec(st))))
			x.setF(st, s.self, s.sig, a)
			if b != nil {
				x.setF(st, s.self, s.cancel, b)
			}
			return
		}
		// what the section leaves behind
		at := itoa(int(s.sec(st)))
		now := s.current(st)
		gone := s.has(st, "cancelled "+at)
		if now == "" {
			s.bad(st, "leaves no signal behind")
			return
		}
		claim := false
		if n, ok := st.ghost["claim section"]; ok {
			k, _ := x.num(n).constInt()
			claim = k == s.sec(st)
		}
		if claim {
			st.ghost["await"] = VTerm{Fn: now}
			if now != at {
				s.put(st, "renewed")
			}
		}
		if s.has(st, "cancelled "+now) && (!s.renews || claim) {
			s.bad(st, "leaves a signal behind that is spent: the next sleep would end at once")
		}
		if now != at && !gone && !claim {
			s.bad(st, "replaces the signal a sleep in progress may be waiting for")
		}
	}
	x.H.Loaded = func(st *State, p Val, t types.Type) (Val, bool) {
		if s.isField(p, s.flag) {
			return s.flagVal(s.read(st), t), true
		}
		if (s.isField(p, s.sig) || s.cancel >= 0 && s.isField(p, s.cancel)) && !s.locked(st) {
			s.bad(st, "reads the signal without the lock")
		}
		return nil, false
	}
	x.H.Stored = func(st *State, p Val, v Val) bool {
		if q, ok := p.(VPtr); ok && q.Obj == s.self.Obj && len(q.Path) == 0 {
			x.fail("overwrites the sleeper")
		}
		if s.isField(p, s.flag) {
			s.write(st, s.flagOf(v))
			return true
		}
		if (s.isField(p, s.sig) || s.cancel >= 0 && s.isField(p, s.cancel)) && !s.locked(st) {
			s.bad(st, "writes the signal without the lock")
		}
		return false
	}
	x.H.Atomic = func(st *State, op string, cell Val, rest []Val, t types.Type) ([]Ret, bool) {
		if !s.isField(cell, s.flag) {
			return nil, false
		}
		return x.fork(st, func(st *State) []Ret {
			old := s.read(st)
			switch op {
			case "Load":
				return ret(st, s.flagVal(old, t))
			case "Store":
				s.write(st, s.flagOf(rest[0]))
				return ret(st)
			case "Swap":
				if n := s.flagOf(rest[0]); n != old {
					s.write(st, n)
				}
				return ret(st, s.flagVal(old, t))
			case "CompareAndSwap":
				if s.flagOf(rest[0]) != old {
					return ret(st, bconst(false))
				}
				if n := s.flagOf(rest[1]); n != old {
					s.write(st, n)
				}
				return ret(st, bconst(true))
			}
			x.fail("atomic %s of the flag", op)
			return nil
		}), true
	}
	x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
		switch name {
		case "context.WithCancel":
			if n, ok := sigName(args[0]); ok && (s.has(st, "cancelled "+n) || n == itoa(int(s.sec(st)))) {
				s.bad(st, "derives the new signal from the old one")
			}
			a, b := s.pair("made at " + x.where())
			if s.has(st, "cancelled made at "+x.where()) {
				x.fail("signals made in a loop")
			}
			return ret(st, a, b), true
		case "invoke:Done":
			if _, ok := sigName(args[0]); ok {
				return ret(st, args[0]), true
			}
		case "time.After", "time.NewTimer", "time.Tick", "time.NewTicker":
			ch := VTerm{Fn: "timer", Args: []Val{x.unTag(args[0])}, NN: true, T: sig.Results().At(0).Type()}
			if strings.Contains(name, "New") {
				pt := deref(sig.Results().At(0).Type())
				v, ok := x.zero(pt).(VStruct)
				if !ok {
					x.fail("%s", name)
				}
				f := fieldBy(pt, 0, func(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }, "C")
				v.F = append([]Val(nil), v.F...)
				v.F[f] = ch
				return ret(st, x.newMem(st, v, pt)), true
			}
			return ret(st, ch), true
		case "(*time.Timer).Stop":
			return x.fork(st, func(st *State) []Ret { return ret(st, bconst(x.choice(st, "stopped?"))) }), true
		case "(*time.Ticker).Stop":
			return ret(st), true
		case "time.Now":
			return ret(st, VTerm{Fn: "now", T: sig.Results().At(0).Type()}), true
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
			return ret(st, args[0]), true
		case "(time.Time).Add":
			return ret(st, VTerm{Fn: "later", Args: []Val{args[0], x.unTag(args[1])}, T: sig.Results().At(0).Type()}), true
		case "(time.Time).Sub":
			// a time so much later than the other lies that much after it
			if a, ok := args[0].(VTerm); ok && a.Fn == "later" && x.key(a.Args[0]) == x.key(args[1]) {
				return ret(st, a.Args[1]), true
			}
			return ret(st, x.termV(VTerm{Fn: "between", Args: args}, sig.Results().At(0).Type())), true
		case "time.Until":
			return ret(st, x.termV(VTerm{Fn: "between", Args: []Val{args[0], VTerm{Fn: "now", T: sig.Params().At(0).Type()}}}, sig.Results().At(0).Type())), true
		case "time.Sleep":
			s.bad(st, "sleeps where no wakeup reaches it")
			return ret(st), true
		}
		if t, ok := args0(args); ok && strings.HasPrefix(name, "call:") && strings.HasPrefix(t.Fn, "cancel ") {
			s.fire(st, t.Fn[7:])
			return ret(st), true
		}
		return nil, false
	}
	x.H.Event = func(st *State, ev VTerm) {
		switch ev.Fn {
		case "close":
			n, ok := sigName(ev.Args[0])
			if !ok || s.cancel >= 0 {
				x.fail("closes %s", x.show(ev.Args[0]))
			}
			if s.has(st, "cancelled "+n) {
				s.bad(st, "closes a channel twice")
			}
			s.fire(st, n)
		case "send", "go":
			x.fail("%s", ev.Fn)
		}
	}
	x.H.Wait = func(st *State, chans []Val, k int, blocking bool) {
		if len(st.locks) > 0 {
			s.bad(st, "waits while holding the lock")
		}
		if !s.has(st, "mine") {
			s.bad(st, "waits without a sleep of its own in progress")
			return
		}
		if s.has(st, "woken") {
			s.bad(st, "goes on sleeping after a wakeup")
			return
		}
		want, ok := st.ghost["await"].(VTerm)
		found := false
		for i, ch := range chans {
			if n, is := sigName(ch); is {
				if ok && n == want.Fn {
					found = true
					if i == k {
						s.put(st, "woken")
					}
					continue
				}
				s.bad(st, "waits for a signal that is not the current one")
			}
			if _, isNil := ch.(VNil); isNil {
				continue
			}
			t, is := ch.(VTerm)
			if !is || t.Fn != "timer" {
				x.fail("waits for %s", x.show(ch))
			}
			st.ghost["timer"] = t.Args[0]
			if i == k {
				s.put(st, "over")
			}
		}
		if !found {
			s.bad(st, "waits where the wakeup that finds it does not reach it")
		}
		if k < 0 && blocking {
			x.fail("sends while sleeping")
		}
	}
}

// fire is the use of a signal.
func (s *sleeper) fire(st *State, n string) {
	if !s.locked(st) {
		s.bad(st, "fires the signal without the lock")
	}
	if n != itoa(int(s.sec(st))) {
		s.bad(st, "fires a signal other than the current one")
	}
	v, ok := st.ghost["seen in section"]
	if !ok || !v.(VBool).B.C {
		s.bad(st, "fires the signal without having seen a sleep in progress in the same critical section")
	}
	s.put(st, "cancelled "+n)
	s.put(st, "fired")
}

func args0(args []Val) (VTerm, bool) {
	if len(args) == 0 {
		return VTerm{}, false
	}
	t, ok := args[0].(VTerm)
	return t, ok
}

// newSleeper finds the roles of the fields and makes a sleeper in an arbitrary
// reachable state.
func newSleeper(c *Case) (*sleeper, *State) {
	x := c.X
	x.InitPkg(x.P.pkgs[sleepPkg])
	s := &sleeper{c: c, x: x, t: x.P.Type(sleepPkg, "Sleeper"), cancel: -1}
	s.mu = fieldBy(s.t, 0, isMutex)
	s.flag, s.sig = -1, -1
	ss := structOf(s.t)
	for i := 0; i < ss.NumFields(); i++ {
		ft := ss.Field(i).Type()
		switch {
		case i == s.mu:
		case isNamed(ft, "context.Context"), isChan(ft):
			if s.sig >= 0 {
				x.fail("two signals")
			}
			s.sig = i
		case isNamed(ft, "sync/atomic.Bool"), isNamed(ft, "sync/atomic.Int32"), isNamed(ft, "sync/atomic.Uint32"), isBool(ft), isInt(ft):
			if s.flag >= 0 {
				x.fail("two flags")
			}
			s.flag = i
			s.atomic = !isBool(ft)
		case isFunc(ft):
			s.cancel = i
		default:
			x.fail("a field %s of unknown role", ss.Field(i).Name())
		}
	}
	if s.flag < 0 || s.sig < 0 {
		x.fail("no flag or no signal")
	}
	if s.cancel < 0 && !isChan(ss.Field(s.sig).Type()) {
		x.fail("no way to use the signal")
	}
	st := NewState()
	st.ghost["sec"] = VNum{K(0)}
	s.self = VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: s.t, V: x.zero(s.t)})}
	return s, st
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isFunc(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }

var sleeps = []string{"SleepFor", "SleepUntil", "SleepForever"}

// sleep interprets one of the sleeping methods.
func (s *sleeper) sleep(st *State, name string, f func(st *State, slept bool)) {
	x, c := s.x, s.c
	fn := x.P.Fn(sleepPkg, "Sleeper."+name)
	args := []Val{s.self}
	if fn.Signature.Params().Len() > 0 {
		pt := fn.Signature.Params().At(0).Type()
		s.askT = pt
		s.asked = x.opaque(VTerm{Fn: "asked", NN: true, T: pt}, pt)
		args = append(args, s.asked)
	}
	c.Each(c.Call(st, fn, nil, args...), noPan(func(st *State, q Ret) string {
		slept := x.truth(st, q.vals[0])
		f(st, slept)
		if len(st.locks) > 0 {
			return "returns holding the lock"
		}
		return ""
	}))
}

// lasts is the time asked for, from now.
func (s *sleeper) lasts() Val {
	x := s.x
	if s.asked == nil {
		return nil
	}
	pt := s.askT
	if !isNamed(pt, "time.Time") {
		return s.asked
	}
	return x.termV(VTerm{Fn: "between", Args: []Val{s.asked, VTerm{Fn: "now", T: pt}}}, x.P.Prog.ImportedPackage("time").Type("Duration").Type())
}

// over: no time passes, however it is written.
func (s *sleeper) over(st *State, v Val) bool {
	n, ok := v.(VNum)
	return ok && s.x.decideGE(st, n.L.Neg())
}

// renewing: whether every way to claim the sleeper makes a new signal.
func renewing(c *Case) bool {
	all := true
	for _, n := range sleeps {
		s, st := newSleeper(c)
		s.renews = true
		q := &Case{X: c.X, r: c.r}
		s.c = q
		s.hooks()
		s.sleep(st, n, func(st *State, slept bool) {
			if s.has(st, "claimed") && !s.has(st, "renewed") {
				all = false
			}
		})
		c.X.H = Hooks{}
	}
	return all
}

func runSleep(r *Run) {
	r.Obl(sleepPkg+" New", func(c *Case) {
		x := c.X
		ren := renewing(c)
		s, _ := newSleeper(c)
		fn := r.P.Fn(sleepPkg, "New")
		st := NewState()
		st.ghost["sec"] = VNum{K(0)}
		s.self = VPtr{Obj: -1}
		s.hooks()
		c.Each(c.Call(st, fn, nil), noPan(func(st *State, q Ret) string {
			p, ok := q.vals[0].(VPtr)
			if !ok {
				return "New returns " + x.show(q.vals[0])
			}
			s.self = p
			flag := x.getF(st, p, s.flag)
			if !x.valEq(st, flag, x.zero(structOf(s.t).Field(s.flag).Type())) {
				return "a new sleeper is asleep"
			}
			if ch, ok := x.getF(st, p, s.sig).(VTerm); ok && s.cancel < 0 && strings.HasPrefix(ch.Fn, "chan") {
				return ""
			}
			if n := s.current(st); n == "" && !ren {
				return "a new sleeper has no wakeup signal"
			} else if s.has(st, "cancelled "+n) && !ren {
				return "the signal of a new sleeper is spent"
			}
			return ""
		}))
	})
	for _, n := range sleeps {
		r.Obl(sleepPkg+" Sleeper."+n, func(c *Case) {
			ren := renewing(c)
			s, st := newSleeper(c)
			s.renews = ren
			s.hooks()
			n1, n2 := 0, 0
			s.sleep(st, n, func(st *State, slept bool) {
				switch {
				case s.has(st, "mine"):
					c.bad(st, "returns with the sleeper still claimed: no later sleep can begin")
				case slept:
					n1++
					if !s.has(st, "claimed") {
						c.bad(st, "reports a sleep without having begun one")
					} else if !s.has(st, "woken") && !s.has(st, "over") {
						if s.asked == nil || !s.over(st, s.lasts()) {
							c.bad(st, "reports a sleep without having waited")
						}
					}
				default:
					n2++
					if s.has(st, "claimed") {
						c.bad(st, "reports no sleep after having begun one")
					} else if v, ok := st.ghost["seen"]; !ok || !v.(VBool).B.C {
						c.bad(st, "reports no sleep without having found one in progress")
					}
				}
				if s.has(st, "fired") {
					c.bad(st, "wakes the sleeper")
				}
			})
			if n1 == 0 || n2 == 0 {
				c.bad(st, "never sleeps, or never refuses to")
			}
		})
	}
	r.Obl(sleepPkg+" Sleeper.Wakeup", func(c *Case) {
		x := c.X
		ren := renewing(c)
		s, st := newSleeper(c)
		s.renews = ren
		s.hooks()
		fn := r.P.Fn(sleepPkg, "Sleeper.Wakeup")
		n1, n2 := 0, 0
		c.Each(c.Call(st, fn, nil, s.self), noPan(func(st *State, q Ret) string {
			woke := x.truth(st, q.vals[0])
			v, ok := st.ghost["seen"]
			switch {
			case len(st.locks) > 0:
				return "returns holding the lock"
			case s.has(st, "claimed"):
				return "claims the sleeper"
			case woke && !s.has(st, "fired"):
				return "reports a wakeup it did not make"
			case !woke && s.has(st, "fired"):
				return "reports no wakeup although it made one"
			case !woke && (!ok || v.(VBool).B.C):
				return "reports no wakeup without having found the sleeper awake"
			case woke:
				n1++
			default:
				n2++
			}
			return ""
		}))
		if n1 == 0 || n2 == 0 {
			c.bad(st, "never wakes, or never finds the sleeper awake")
		}
	})
}

// C35: what ends a sleep.
func runSleepTime(r *Run) {
	for _, n := range sleeps {
		r.Obl(sleepPkg+" Sleeper."+n, func(c *Case) {
			x := c.X
			s, st := newSleeper(c)
			s.c = &Case{X: c.X, r: c.r}
			s.hooks()
			seen := false
			s.sleep(st, n, func(st *State, slept bool) {
				if !s.has(st, "claimed") {
					return
				}
				seen = true
				d, timed := st.ghost["timer"]
				fn := x.P.Fn(sleepPkg, "Sleeper."+n)
				if fn.Signature.Params().Len() == 0 {
					if timed {
						c.bad(st, "an endless sleep ends after %s", x.show(d))
					}
					return
				}
				want := s.lasts()
				past := s.over(st, want)
				want = x.unTag(want)
				switch {
				case past && (!timed || s.over(st, d)):
				case !timed:
					c.bad(st, "the sleep does not end when its time is over")
				case x.key(d) != x.key(want):
					c.bad(st, "sleeps %s, expected %s", x.show(d), x.show(want))
				}
			})
			if !seen {
				c.bad(st, "never sleeps")
			}
			c.Each([]Ret{{st: st}}, func(*State, Ret) string { return "" })
		})
	}
}

func init() {
	register(&Prop{ID: "C15", Title: "sleeper", Pkgs: []string{sleepPkg}, Min: 5,
		Rule: "rely-guarantee typestate over every path of every method, with the flag and the signal changed by others wherever they may: a sleep is claimed in the critical section in which the flag was found clear and which fixes the signal it waits for, it waits without the lock and always on that signal too, a received wakeup ends it, the claim is given up on every way out and by its owner only; a wakeup fires the current signal exactly if it found the flag set in the same critical section, and no spent or mismatched signal is left behind",
		Run:  runSleep})
	register(&Prop{ID: "C35", Title: "sleep duration", Pkgs: []string{sleepPkg}, Min: 3,
		Rule: "on every path that begins a sleep, the timer waited for is made from exactly the duration asked for, or from the difference between the time asked for and the current time, and an endless sleep waits for no timer",
		Run:  runSleepTime})
}
