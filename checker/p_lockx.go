package main

import (
	"go/types"
	"strings"
)

// The pointer lock (C32): a word that holds its own address while the lock is
// free, and nil while it is held. Lock is interpreted for any such word with
// whatever the other users of the lock may do between its accesses: take it,
// or give it back.

const lockPkg = "syncx/lockx"

type ptrLock struct {
	c    *Case
	x    *Exec
	l    Val
	free Val // what the word holds while the lock is free
}

func (p *ptrLock) bad(st *State, f string, a ...any) {
	p.c.bad(st, f+" (at "+p.x.where()+")", a...)
}
func (p *ptrLock) phase(st *State) string {
	t, _ := st.ghost["phase"].(VTerm)
	return t.Fn
}
func (p *ptrLock) is(v Val) bool { t, ok := v.(VTerm); return ok && p.x.key(t) == p.x.key(p.l) }

// look is the content of the word.
func (p *ptrLock) look(st *State) (Val, bool) {
	if ph := p.phase(st); ph == "held" || ph == "done" {
		return VNil{}, false
	}
	if p.x.choice(st, "free?") {
		return p.free, true
	}
	return VNil{}, false
}

func (p *ptrLock) same(st *State, a, b Val) bool {
	if n, ok := b.(VTerm); ok && n.Fn == "content" {
		// any content but the address of the word itself
		if _, nil := a.(VNil); nil || p.is(a) {
			return false
		}
	}
	return p.x.decide(st, p.x.equal(st, a, b, types.Typ[types.UnsafePointer]))
}

// write puts v into the word, which was free or not.
func (p *ptrLock) write(st *State, free bool, v Val) {
	_, clear := v.(VNil)
	switch ph := p.phase(st); ph {
	case "held", "done":
		switch {
		case clear:
		case ph == "held":
			p.bad(st, "gives the lock back before the function was called")
			st.ghost["phase"] = VTerm{Fn: "free"}
		case !p.same(st, v, p.free):
			p.bad(st, "leaves the word holding %s, for which nobody waits", p.x.show(v))
			st.ghost["phase"] = VTerm{Fn: "free"}
		default:
			st.ghost["phase"] = VTerm{Fn: "free"}
		}
	default:
		switch {
		case free && clear && ph == "":
			st.ghost["phase"] = VTerm{Fn: "held"}
		case free && clear:
			p.bad(st, "takes the lock a second time")
		case free && p.same(st, v, p.free), !free && clear:
		case free:
			p.bad(st, "marks the lock with %s, which does not keep others out as nil does", p.x.show(v))
		default:
			p.bad(st, "takes or frees a lock that another holds")
		}
	}
}

func (p *ptrLock) hooks() {
	x := p.x
	x.H = Hooks{}
	x.H.Atomic = func(st *State, op string, cell Val, rest []Val, t types.Type) ([]Ret, bool) {
		if !p.is(cell) {
			return nil, false
		}
		return x.fork(st, func(st *State) []Ret {
			v, free := p.look(st)
			switch op {
			case "Load":
				return ret(st, v)
			case "Store":
				p.write(st, free, rest[0])
				return ret(st)
			case "Swap":
				p.write(st, free, rest[0])
				return ret(st, v)
			case "CompareAndSwap":
				if !p.same(st, rest[0], v) {
					return ret(st, bconst(false))
				}
				p.write(st, free, rest[1])
				return ret(st, bconst(true))
			}
			x.fail("atomic %s of the lock", op)
			return nil
		}), true
	}
	x.H.Loaded = func(st *State, q Val, t types.Type) (Val, bool) {
		if !p.is(q) {
			return nil, false
		}
		if ph := p.phase(st); ph != "held" && ph != "done" {
			p.bad(st, "reads the word without holding the lock, and without an atomic operation")
		}
		v, _ := p.look(st)
		return v, true
	}
	x.H.Event = func(st *State, ev VTerm) {
		if ev.Fn == "store" || ev.Fn == "go" || ev.Fn == "send" {
			x.fail("%s in Lock", ev.Fn)
		}
	}
	x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
		switch {
		case name == "runtime.Gosched" || name == "time.Sleep":
			return ret(st), true
		case strings.HasPrefix(name, "call:") && isFn(args[0], "f"):
			if ph := p.phase(st); ph != "held" {
				p.bad(st, "calls the function %s", map[string]string{"": "without holding the lock", "done": "twice", "free": "after giving the lock back"}[ph])
			}
			if !p.is(args[1]) {
				p.bad(st, "gives the function %s instead of the variable's address", x.show(args[1]))
			}
			st.ghost["phase"] = VTerm{Fn: "done"}
			q := st.clone()
			return []Ret{{st: st}, {st: q, pan: &Pan{Kind: "callback", Msg: "callback panics", Pos: p.x.where(), Fn: p.x.curFn()}}}, true
		}
		return nil, false
	}
}

func newPtrLock(c *Case) (*ptrLock, func() []Ret) {
	x := c.X
	fn := x.P.Fn(lockPkg, "Lock")
	p := &ptrLock{c: c, x: x}
	p.l = VTerm{Fn: "l", NN: true, T: fn.Signature.Params().At(0).Type()}
	p.free = p.l
	p.hooks()
	return p, func() []Ret {
		return c.Call(NewState(), fn, nil, p.l, VTerm{Fn: "f", NN: true, T: fn.Signature.Params().At(1).Type()})
	}
}

func init() {
	register(&Prop{ID: "C32", Title: "the pointer lock runs its function under mutual exclusion", Pkgs: []string{lockPkg}, Min: 3,
		Rule: "rely-guarantee typestate of a user of the lock: the word changes only from free to held, by an atomic exchange that saw it free, and back by its holder; the function is called once, in between, with the address given",
		Run: func(r *Run) {
			r.Obl(lockPkg+" Lock", func(c *Case) {
				p, call := newPtrLock(c)
				n := 0
				c.Each(call(), func(st *State, q Ret) string {
					if q.pan != nil && q.pan.Kind != "callback" {
						return "may panic: " + q.pan.Msg
					}
					if q.pan != nil && p.phase(st) != "free" {
						return "a function that panics leaves the variable locked for ever"
					}
					n++
					if len(st.ops) > 0 {
						return "writes memory without an atomic operation: " + c.X.show(st.ops[0].Ptr)
					}
					switch ph := p.phase(st); ph {
					case "":
						return "returns without having taken the lock"
					case "held":
						return "returns without having called the function"
					case "done":
						return "returns without giving the lock back"
					}
					return ""
				})
				if n == 0 {
					c.bad(nil, "never returns")
				}
			})
			r.Obl(lockPkg+" Lock of a variable with any content", func(c *Case) {
				p, call := newPtrLock(c)
				p.c = &Case{X: c.X, r: c.r}
				p.free = VTerm{Fn: "content", T: types.Typ[types.UnsafePointer]}
				n := 0
				for _, q := range call() {
					if q.pan == nil {
						n++
					}
				}
				if n == 0 {
					c.bad(nil, "a free variable that does not hold its own address is never locked: Lock spins for ever")
				}
			})
			r.Obl(lockPkg+" Lock touches only the variable", func(c *Case) {
				p, call := newPtrLock(c)
				p.c = &Case{X: c.X, r: c.r}
				h := c.X.H.Atomic
				seen := map[string]bool{}
				c.X.H.Atomic = func(st *State, op string, cell Val, rest []Val, t types.Type) ([]Ret, bool) {
					if p.is(cell) && !seen[c.X.where()] {
						seen[c.X.where()] = true
						c.bad(nil, "uses the variable as a word of memory, though its type may be smaller")
					}
					return h(st, op, cell, rest, t)
				}
				call()
			})
		}})
}
