package main

import (
	"go/types"
	"strings"
)

// Lock discipline: which memory a lock guards, and the synchronised map (C10).

func isMutex(t types.Type) bool { return isNamed(t, "sync.Mutex") || isNamed(t, "sync.RWMutex") }

// guard says what a lock protects.
type guard struct {
	lock   func(st *State) Val
	owner  int          // object whose fields are guarded
	fields map[int]bool // nil: every field but the lock's
	objs   map[int]bool // further guarded objects
	hit    func(st *State, p Val) bool
	max    int // 1: no writes at all
}

// discipline makes every access to guarded memory an obligation.
func (c *Case) discipline(g *guard) {
	x := c.X
	seen := map[string]bool{}
	check := func(st *State, p Val, mode int) {
		var hit bool
		if q, ok := p.(VPtr); ok {
			hit = g.objs[q.Obj]
			if q.Obj == g.owner {
				hit = len(q.Path) == 0 || g.fields[q.Path[0].F]
			}
		}
		if g.hit != nil && !hit {
			hit = g.hit(st, p)
		}
		if mode > g.max && g.max > 0 && hit {
			c.bad(st, "writes guarded memory (at %s)", x.where())
			return
		}
		if !hit || x.holds(st, g.lock(st), mode) {
			return
		}
		m := "reads guarded memory without holding its lock"
		if mode == 2 {
			m = "writes guarded memory without holding its lock for writing"
		}
		w := x.where()
		if !seen[w+m] {
			seen[w+m] = true
			c.site = w
			c.bad(st, "%s (at %s)", m, w)
		}
	}
	x.H.Load = func(st *State, p Val, t types.Type) { check(st, p, 1) }
	x.H.Store = func(st *State, p Val, v Val) { check(st, p, 2) }
}

// released checks that no lock is held and that the guard's lock was taken
// exactly n times (n<0: any number).
func (c *Case) released(st *State, lock Val, n int) string {
	x := c.X
	if len(st.locks) > 0 {
		return "returns holding a lock"
	}
	k := 0
	for _, p := range st.trace {
		if p.Kind != POne {
			return "locks are taken in a loop"
		}
		if t, ok := p.V.(VTerm); ok && (t.Fn == "lock" || t.Fn == "rlock") {
			if !x.sameAddr(t.Args[0], lock) {
				return "takes a lock other than the map's"
			}
			k++
		}
	}
	if n >= 0 && k != n {
		return "the operation consists of " + itoa(k) + " critical sections, expected " + itoa(n)
	}
	return ""
}

func itoa(n int) string { return K(int64(n)).Key() }

const syncPkg = "dsx/mapx/syncmapx"

func runSync(r *Run) {
	mt := r.P.Type(syncPkg, "Map")
	ta := typeArgs(mt)
	kT, vT := ta[0], ta[1]
	fM := fieldBy(mt, 0, func(t types.Type) bool { _, ok := under(t).(*types.Map); return ok })
	fL := fieldBy(mt, 0, func(t types.Type) bool { return isMutex(t) || isPtrTo(t, isMutex) })
	r.Obl(syncPkg+" New", func(c *Case) {
		x := c.X
		fn := r.P.Fn(syncPkg, "New")
		c.Each(c.Call(NewState(), fn, tmFor(fn, ta)), noPan(func(st *State, q Ret) string {
			p, ok := q.vals[0].(VPtr)
			if !ok {
				return "New returns " + x.show(q.vals[0])
			}
			m, ok := x.getF(st, p, fM).(VPtr)
			if !ok || st.objs[m.Obj].M == nil || st.objs[m.Obj].M.KB != nil || len(st.objs[m.Obj].M.Upd) > 0 {
				return "a new map is not an empty map"
			}
			if _, isNil := x.getF(st, p, fL).(VNil); isNil {
				return "a new map has no lock"
			}
			zero := K(0)
			return first(x.numIs(st, "size", VNum{st.objs[m.Obj].M.Len}, K(0)), c.released(st, VNil{}, 0), c.okExtra(st, p, mt, &zero, fM, fL))
		}))
	})
	guarded := map[int]bool{}
	for i := 0; i < structOf(mt).NumFields(); i++ {
		guarded[i] = i != fL && !isSync(structOf(mt).Field(i).Type())
	}
	type ent struct {
		x    *Exec
		self VPtr
		mo   int
		mv   *MapVal
		lock Val
		k    Val
	}
	obl := func(meth string, f func(c *Case, e *ent, st *State, call func(...Val) []Ret)) {
		r.Obl(syncPkg+" Map."+meth, func(c *Case) {
			x := c.X
			st := NewState()
			e := &ent{x: x, k: x.tok("k", kT)}
			mtp := types.NewMap(kT, vT)
			n := x.lenSym("n")
			e.mv = &MapVal{KB: x.base("key", kT), VB: x.base("val", vT), Name: x.tok("map", mtp), Len: n, T: mtp}
			e.mv.KB.Dist = true
			e.mo = x.newObj(st, &Obj{Kind: OMap, T: mtp, M: e.mv})
			e.self = VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: mt, V: x.zero(mt)})}
			x.setF(st, e.self, fM, VPtr{Obj: e.mo})
			e.lock = VPtr{Obj: e.self.Obj, Path: []PE{{F: fL}}}
			if p, ok := under(structOf(mt).Field(fL).Type()).(*types.Pointer); ok {
				l := VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: p.Elem(), V: x.zero(p.Elem())})}
				x.setF(st, e.self, fL, l)
				e.lock = l
			}
			c.setExtra(st, e.self, mt, &n, fM, fL)
			st.ghost["self"] = e.self
			// a map with elements has distinct keys; an empty one has none in it
			c.discipline(&guard{lock: func(*State) Val { return e.lock }, owner: e.self.Obj, fields: guarded, objs: map[int]bool{e.mo: true}})
			fn := r.P.Fn(syncPkg, "Map."+strings.TrimSuffix(meth, " with any key"))
			f(c, e, st, func(args ...Val) []Ret {
				rs := c.Call(st, fn, tmFor(fn, ta), append([]Val{e.self}, args...)...)
				x.H.Load, x.H.Store = nil, nil
				return rs
			})
		})
	}
	// same: the map is the old one with the given updates
	same := func(c *Case, e *ent, st *State, upd *MapUpd, n Lin) string {
		x := e.x
		p, ok := x.getF(st, e.self, fM).(VPtr)
		if !ok || p.Obj != e.mo {
			return "the map is replaced"
		}
		mv := st.objs[p.Obj].M
		hit := false
		for i := len(mv.Upd) - 1; i >= 0; i-- {
			u := mv.Upd[i]
			if hit {
				continue
			}
			if upd == nil || !x.valEq(st, u.K, upd.K) || u.Del != upd.Del || !u.Del && !x.valEq(st, u.V, upd.V) {
				return "the map is changed at " + x.show(u.K)
			}
			hit = true
		}
		if upd != nil && !hit && !upd.Del {
			return "the map is not changed at " + x.show(upd.K)
		}
		return first(x.numIs(st, "size", VNum{mv.Len}, n), c.released(st, e.lock, 1), c.okExtra(st, e.self, mt, &n, fM, fL))
	}
	has := func(e *ent, st *State) bool { return e.x.decideFact(st, Fact{"in", []Val{e.mv.Name, e.k}}) }
	obl("Get", func(c *Case, e *ent, st *State, call func(...Val) []Ret) {
		c.Each(call(e.k), noPan(func(st *State, q Ret) string {
			want := e.x.zero(vT)
			if has(e, st) {
				want = e.x.termV(VTerm{Fn: "mapget", Args: []Val{e.mv.Name, e.k}}, vT)
			}
			return first(e.x.valIs(st, "value", q.vals[0], want), same(c, e, st, nil, e.mv.Len))
		}))
	})
	obl("Has", func(c *Case, e *ent, st *State, call func(...Val) []Ret) {
		c.Each(call(e.k), noPan(func(st *State, q Ret) string {
			return first(e.x.boolIs(st, "presence", q.vals[0], has(e, st)), same(c, e, st, nil, e.mv.Len))
		}))
	})
	obl("Size", func(c *Case, e *ent, st *State, call func(...Val) []Ret) {
		c.Each(call(), noPan(func(st *State, q Ret) string {
			return first(e.x.numIs(st, "size", q.vals[0], e.mv.Len), same(c, e, st, nil, e.mv.Len))
		}))
	})
	for _, k := range []string{"Keys", "Values"} {
		k := k
		obl(k, func(c *Case, e *ent, st *State, call func(...Val) []Ret) {
			b := e.mv.KB
			if k == "Values" {
				b = e.mv.VB
			}
			c.Each(call(), noPan(func(st *State, q Ret) string {
				got, _ := e.x.content(st, q.vals[0])
				return first(e.x.seqIs(st, "result", got, whole(b, e.mv.Len)), same(c, e, st, nil, e.mv.Len))
			}))
		})
	}
	obl("Set", func(c *Case, e *ent, st *State, call func(...Val) []Ret) {
		v := e.x.tok("v", vT)
		c.Each(call(e.k, v), noPan(func(st *State, q Ret) string {
			n := e.mv.Len
			if !has(e, st) {
				n = n.AddI(1)
			}
			return same(c, e, st, &MapUpd{K: e.k, V: v}, n)
		}))
	})
	obl("Delete", func(c *Case, e *ent, st *State, call func(...Val) []Ret) {
		c.Each(call(e.k), noPan(func(st *State, q Ret) string {
			n := e.mv.Len
			if has(e, st) {
				n = n.AddI(-1)
			}
			return same(c, e, st, &MapUpd{K: e.k, Del: true}, n)
		}))
	})
	// a key of interface type may hold a value that cannot be hashed
	for _, k := range []string{"Get", "Has", "Set", "Delete"} {
		k := k
		obl(k+" with any key", func(c *Case, e *ent, st *State, call func(...Val) []Ret) {
			args := []Val{e.k}
			if k == "Set" {
				args = append(args, e.x.tok("v", vT))
			}
			e.x.keyPan = true
			rs := call(args...)
			e.x.keyPan = false
			c.Each(rs, func(st *State, q Ret) string {
				if q.pan == nil {
					return ""
				}
				if len(st.locks) > 0 {
					return "a key that cannot be hashed leaves the map locked for ever"
				}
				return ""
			})
		})
	}
	obl("Clear", func(c *Case, e *ent, st *State, call func(...Val) []Ret) {
		c.Each(call(), noPan(func(st *State, q Ret) string {
			m, ok := e.x.getF(st, e.self, fM).(VPtr)
			if !ok {
				return "the map is nil after Clear"
			}
			mv := st.objs[m.Obj].M
			for _, u := range mv.Upd {
				if !u.Del {
					return "the map is not empty after Clear"
				}
			}
			zero := K(0)
			return first(e.x.numIs(st, "size", VNum{mv.Len}, K(0)), c.released(st, e.lock, 1), c.okExtra(st, e.self, mt, &zero, fM, fL))
		}))
	})
}

func init() {
	register(&Prop{ID: "C10", Title: "synchronised map", Pkgs: []string{syncPkg}, Min: 13,
		Rule: "abstract interpretation with a lock-set of every method over every content and key: each access to the map field or the map must happen under the lock (for writing if it writes), one acquisition per operation, released on every way out, result and change equal to the built-in map's",
		Run:  runSync})
}
