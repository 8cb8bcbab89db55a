package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The converter registry (C16) and its built-in table (C17).

const convPkg = "typex/convx"

type registry struct {
	r     *Run
	pk    *ssa.Package
	lockG *ssa.Global
	maps  []*ssa.Global
}

func newRegistry(r *Run) *registry {
	g := &registry{r: r, pk: r.P.pkgs[convPkg]}
	for _, m := range sortedMembers(g.pk) {
		v, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t := deref(v.Type())
		if isMutex(t) {
			if g.lockG != nil {
				panic(undecided{"two locks in " + convPkg})
			}
			g.lockG = v
		} else if _, ok := under(t).(*types.Map); ok {
			g.maps = append(g.maps, v)
		}
	}
	if g.lockG == nil || len(g.maps) == 0 {
		panic(undecided{"no registry map with a lock in " + convPkg})
	}
	return g
}

// guard: the registry variables, every map they reach, and every opaque map.
func (g *registry) guard(c *Case, max int) {
	x := c.X
	c.discipline(&guard{max: max,
		lock: func(st *State) Val { return VPtr{Obj: x.global(st, g.lockG)} },
		hit: func(st *State, p Val) bool {
			switch p := p.(type) {
			case VTerm, VElem:
				_, m := under(termType(p)).(*types.Map)
				return m
			case VPtr:
				return g.reach(x, st)[p.Obj]
			}
			return false
		}})
	x.H.MapSet = func(st *State, m, k, v Val) bool {
		// inner maps are never shared between keys
		if mt := x.mapType(st, m); mt != nil {
			if _, inner := under(mt.Elem()).(*types.Map); inner {
				p, ok := v.(VPtr)
				if !ok || !st.objs[p.Obj].Fresh || g.reach(x, st)[p.Obj] {
					c.bad(st, "stores a map that other keys may share (at %s)", x.where())
				}
			}
		}
		return false
	}
	x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
		if len(name) < 5 || name[:5] != "call:" {
			return nil, false
		}
		if len(st.locks) > 0 {
			c.bad(st, "calls a converter while holding the lock (at %s)", x.where())
		}
		x.event(st, VTerm{Fn: "call:", Args: args})
		out := []Ret{{st: st, vals: []Val{x.termV(VTerm{Fn: "app", Args: args}, sig.Results().At(0).Type())}}}
		p := st.clone()
		return append(out, Ret{st: p, pan: &Pan{Kind: "callback", Msg: "converter panics", Pos: x.where(), Fn: x.curFn()}}), true
	}
}

// reach is the set of objects reachable from the registry variables.
func (g *registry) reach(x *Exec, st *State) map[int]bool {
	seen := map[int]bool{}
	var val func(v Val)
	var obj func(id int)
	val = func(v Val) {
		scanVal(v, func(v Val) {
			if p, ok := v.(VPtr); ok {
				obj(p.Obj)
			}
		})
	}
	obj = func(id int) {
		o := st.objs[id]
		if o == nil || seen[id] {
			return
		}
		seen[id] = true
		switch o.Kind {
		case OMem:
			val(o.V)
		case OMap:
			for _, u := range o.M.Upd {
				if u.V != nil {
					val(u.V)
				}
			}
		}
	}
	for _, m := range g.maps {
		obj(x.global(st, m))
	}
	for _, o := range st.ops {
		for _, v := range o.V.(VTuple).F {
			val(v)
		}
	}
	return seen
}

func (g *registry) lockVal(x *Exec, st *State) Val { return VPtr{Obj: x.global(st, g.lockG)} }

// run calls a registry function with type arguments.
func (g *registry) run(c *Case, st *State, name string, max int, targs []types.Type, args ...Val) []Ret {
	x := c.X
	g.guard(c, max)
	fn := g.r.P.Fn(convPkg, name)
	st.trace = nil
	rs := c.Call(st, fn, tmFor(fn, targs), args...)
	x.H = Hooks{}
	return rs
}

// calls are the converter calls of a path.
func calls(st *State) (cs []VTerm, odd bool) {
	for _, p := range st.trace {
		t, ok := p.V.(VTerm)
		if p.Kind != POne || !ok {
			return nil, true
		}
		if t.Fn == "call:" {
			cs = append(cs, t)
		}
	}
	return
}

func (g *registry) sections(c *Case, st *State, n int) string {
	return c.released(st, g.lockVal(c.X, st), n)
}

func runConv(r *Run) {
	g := newRegistry(r)
	tp := func(name string) types.Type {
		return types.NewTypeParam(types.NewTypeName(0, nil, name, nil), types.NewInterfaceType(nil, nil))
	}
	A, B, C, D := tp("A"), tp("B"), tp("C"), tp("D")
	any := types.NewInterfaceType(nil, nil).Complete()
	errT := types.Universe.Lookup("error").Type()
	num := types.Typ[types.Int]
	fnT := func(a, b types.Type) types.Type {
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", a)), types.NewTuple(types.NewVar(0, nil, "", b)), false)
	}
	differ := func(x *Exec, st *State, a, b types.Type) {
		p, q := Val(typeTerm(a)), Val(typeTerm(b))
		if x.key(p) > x.key(q) {
			p, q = q, p
		}
		x.setFact(st, Fact{"eq", []Val{p, q}}, false)
	}
	// inner maps of different keys are different maps
	apart := func(x *Exec, st *State, a, b types.Type) {
		for _, m := range g.maps {
			t := deref(m.Type())
			gv := st.objs[x.global(st, m)].V
			mt := under(t).(*types.Map)
			p := x.termV(VTerm{Fn: "mapget", Args: []Val{gv, typeTerm(a)}}, mt.Elem())
			q := x.termV(VTerm{Fn: "mapget", Args: []Val{gv, typeTerm(b)}}, mt.Elem())
			if x.key(p) > x.key(q) {
				p, q = q, p
			}
			x.setFact(st, Fact{"eq", []Val{p, q}}, false)
			// an inner map is never the outer one
			for _, i := range []Val{p, q} {
				a, b := i, gv
				if x.key(a) > x.key(b) {
					a, b = b, a
				}
				x.setFact(st, Fact{"eq", []Val{a, b}}, false)
			}
		}
	}
	start := func(c *Case, as ...types.Type) *State {
		st := NewState()
		for i, a := range as {
			for _, b := range as[:i] {
				if !types.Identical(a, b) {
					differ(c.X, st, a, b)
					apart(c.X, st, a, b)
				}
			}
			apart(c.X, st, a, a)
		}
		return st
	}
	type pair struct {
		name string
		a, b types.Type
	}
	pairs := []pair{{"any types", A, B}, {"from an interface type", any, B}, {"to an interface type", A, errT}, {"between interface types", errT, any}, {"type to itself", A, A}, {"concrete types", num, types.Typ[types.String]}}
	found := func(c *Case, st *State, q Ret, f, v Val) string {
		cs, odd := calls(st)
		if odd || len(cs) != 1 {
			return fmt.Sprintf("%d converter calls, expected one", len(cs))
		}
		x := c.X
		if q.pan != nil {
			if q.pan.Kind != "callback" {
				return panMsg(q.pan)
			}
			return g.sections(c, st, -1)
		}
		app := x.termV(VTerm{Fn: "app", Args: []Val{f, v}}, termTypeOr(q.vals[0], f))
		return first(x.valIs(st, "callee", cs[0].Args[0], f), x.valIs(st, "converted value", cs[0].Args[1], v),
			x.boolIs(st, "found", q.vals[1], true), x.valIs(st, "result", q.vals[0], app), g.sections(c, st, -1))
	}
	none := func(c *Case, st *State, q Ret, b types.Type) string {
		if q.pan != nil {
			return panMsg(q.pan)
		}
		cs, odd := calls(st)
		if odd || len(cs) != 0 {
			return "calls a converter though there is none"
		}
		return first(c.X.boolIs(st, "found", q.vals[1], false), c.X.valIs(st, "result", q.vals[0], c.X.zero(b)), g.sections(c, st, -1))
	}
	conv := func(c *Case, a, b types.Type) Val {
		f := c.X.tok("f", fnT(a, b))
		f.NN = true
		return f
	}
	value := func(c *Case, t types.Type) Val { return c.X.fresh("v", t) }
	// after runs name, demands that it ends normally, and continues
	after := func(c *Case, st *State, name string, targs []types.Type, args []Val, k func(st *State)) {
		for _, q := range g.run(c, st, name, 2, targs, args...) {
			if q.pan != nil {
				c.bad(q.st, "%s %s", name, panMsg(q.pan))
				continue
			}
			if m := g.sections(c, q.st, 1); m != "" {
				c.bad(q.st, "%s: %s", name, m)
				continue
			}
			k(q.st)
		}
	}
	for _, p := range pairs {
		p := p
		ta := []types.Type{p.a, p.b}
		r.Obl(convPkg+" Register then look up, "+p.name, func(c *Case) {
			f := conv(c, p.a, p.b)
			v := value(c, p.a)
			after(c, start(c, p.a, p.b), "Register", ta, []Val{f}, func(st *State) {
				c.Each(g.run(c, st.clone(), "Exists", 1, ta), noPan(func(st *State, q Ret) string {
					return first(c.X.boolIs(st, "Exists", q.vals[0], true), g.sections(c, st, 1))
				}))
				c.Each(g.run(c, st.clone(), "Into", 1, ta, v), func(st *State, q Ret) string { return found(c, st, q, f, v) })
				or := c.X.fresh("or", p.b)
				c.Each(g.run(c, st.clone(), "IntoOr", 1, ta, v, or), func(st *State, q Ret) string {
					if q.pan == nil {
						q.vals = []Val{q.vals[0], bconst(true)}
					}
					return found(c, st, q, f, v)
				})
			})
		})
		r.Obl(convPkg+" Unregister then look up, "+p.name, func(c *Case) {
			v := value(c, p.a)
			after(c, start(c, p.a, p.b), "Unregister", ta, nil, func(st *State) {
				c.Each(g.run(c, st.clone(), "Exists", 1, ta), noPan(func(st *State, q Ret) string {
					return first(c.X.boolIs(st, "Exists", q.vals[0], false), g.sections(c, st, 1))
				}))
				c.Each(g.run(c, st.clone(), "Into", 1, ta, v), func(st *State, q Ret) string { return none(c, st, q, p.b) })
				or := c.X.fresh("or", p.b)
				c.Each(g.run(c, st.clone(), "IntoOr", 1, ta, v, or), noPan(func(st *State, q Ret) string {
					return c.X.valIs(st, "result", q.vals[0], or)
				}))
			})
		})
	}
	// frame: another pair is not affected
	type frame struct {
		name       string
		a, b, c, d types.Type
	}
	frames := []frame{{"another source and target", A, B, C, D}, {"another target", A, B, A, D}, {"another source", A, B, C, B}, {"the reverse pair", A, B, B, A},
		{"an interface as source", A, B, any, B}, {"two interfaces as source", errT, B, any, B}, {"two interfaces as target", A, errT, A, any}}
	for _, fr := range frames {
		fr := fr
		for _, op := range []string{"Register", "Unregister"} {
			op := op
			r.Obl(convPkg+" "+op+" leaves "+fr.name+" alone", func(c *Case) {
				x := c.X
				var args []Val
				if op == "Register" {
					args = append(args, conv(c, fr.a, fr.b))
				}
				v := value(c, fr.c)
				for _, q0 := range g.run(c, start(c, fr.a, fr.b, fr.c, fr.d), "Into", 1, []types.Type{fr.c, fr.d}, v) {
					c0, odd := calls(q0.st)
					if odd {
						c.bad(q0.st, "calls in a loop")
						continue
					}
					q0 := q0
					after(c, q0.st.clone(), op, []types.Type{fr.a, fr.b}, args, func(st *State) {
						c.Each(g.run(c, st, "Into", 1, []types.Type{fr.c, fr.d}, v), func(st *State, q Ret) string {
							c1, odd := calls(st)
							if odd || len(c0) != len(c1) {
								return "the number of converter calls for the other pair changed"
							}
							for i := range c1 {
								if m := first(x.valIs(st, "converter of the other pair", c1[i].Args[0], c0[i].Args[0]), x.valIs(st, "value", c1[i].Args[1], c0[i].Args[1])); m != "" {
									return m
								}
							}
							if q.pan != nil || q0.pan != nil {
								if q.pan != nil && q.pan.Kind != "callback" {
									return panMsg(q.pan)
								}
								return ""
							}
							if x.decide(st, q.vals[1].(VBool).B) != x.decide(st, q0.vals[1].(VBool).B) {
								return "whether the other pair is found changed"
							}
							return x.valIs(st, "result for the other pair", q.vals[0], q0.vals[0])
						})
					})
				}
				for _, q0 := range g.run(c, start(c, fr.a, fr.b, fr.c, fr.d), "Exists", 1, []types.Type{fr.c, fr.d}) {
					q0 := q0
					if q0.pan != nil {
						c.bad(q0.st, "%s", panMsg(q0.pan))
						continue
					}
					after(c, q0.st.clone(), op, []types.Type{fr.a, fr.b}, args, func(st *State) {
						c.Each(g.run(c, st, "Exists", 1, []types.Type{fr.c, fr.d}), noPan(func(st *State, q Ret) string {
							if x.decide(st, q.vals[0].(VBool).B) != x.decide(st, q0.vals[0].(VBool).B) {
								return "whether the other pair exists changed"
							}
							return ""
						}))
					})
				}
			})
		}
	}
	r.Obl(convPkg+" Into on any registry", func(c *Case) {
		v := value(c, A)
		c.Each(g.run(c, start(c, A, B), "Into", 1, []types.Type{A, B}, v), func(st *State, q Ret) string {
			cs, _ := calls(st)
			if len(cs) == 0 {
				return none(c, st, q, B)
			}
			return found(c, st, q, cs[0].Args[0], v)
		})
	})
}

func termTypeOr(v, f Val) types.Type {
	if t := termType(f); t != nil {
		if s, ok := under(t).(*types.Signature); ok {
			return s.Results().At(0).Type()
		}
	}
	return termType(v)
}

// ---- the table

func runConvTable(r *Run) {
	g := newRegistry(r)
	T := types.Typ
	ints := []types.Type{T[types.Int8], T[types.Int16], T[types.Int32], T[types.Int64], T[types.Int], T[types.Uint8], T[types.Uint16], T[types.Uint32], T[types.Uint64], T[types.Uint]}
	floats := []types.Type{T[types.Float32], T[types.Float64]}
	str, boo := types.Type(T[types.String]), types.Type(T[types.Bool])
	bytes, runes := types.NewSlice(T[types.Uint8]), types.NewSlice(T[types.Int32])
	isF := func(t types.Type) bool { b := basicOf(t); return b != nil && b.Info()&types.IsFloat != 0 }
	var pairs [][2]types.Type
	nums := append(append([]types.Type{}, ints...), floats...)
	for _, a := range nums {
		for _, b := range nums {
			pairs = append(pairs, [2]types.Type{a, b})
		}
		pairs = append(pairs, [2]types.Type{a, str}, [2]types.Type{str, a}, [2]types.Type{a, boo}, [2]types.Type{boo, a})
	}
	pairs = append(pairs, [2]types.Type{str, boo}, [2]types.Type{boo, str}, [2]types.Type{str, str}, [2]types.Type{boo, boo},
		[2]types.Type{str, bytes}, [2]types.Type{bytes, str}, [2]types.Type{bytes, bytes}, [2]types.Type{str, runes}, [2]types.Type{runes, str}, [2]types.Type{runes, runes})
	// one interpretation of the package initialiser serves all pairs
	x0 := NewExec(r.P)
	x0.atStart = true
	x0.InitPkg(g.pk)
	call := func(x *Exec, st *State, name string, args []Val, res ...types.Type) []Val {
		var ps, rs []*types.Var
		for _, t := range res {
			rs = append(rs, types.NewVar(0, nil, "", t))
		}
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false)
		out := x.external(st, name, args, sig)
		return out[0].vals
	}
	want := func(c *Case, st *State, v Val, a, b types.Type) Val {
		x := c.X
		errT := types.Universe.Lookup("error").Type()
		n := func(i int64) Val { return VNum{K(i)} }
		switch {
		case isInt(a) && b == str:
			return call(x, st, "strconv.FormatInt", []Val{v, n(10)}, str)[0]
		case isF(a) && b == str:
			return call(x, st, "strconv.FormatFloat", []Val{x.convert(st, v, a, T[types.Float64]), n('f'), n(-1), n(64)}, str)[0]
		case a == str && isInt(b):
			if _, signed := intBits(basicOf(b)); signed {
				return x.convert(st, call(x, st, "strconv.ParseInt", []Val{v, n(10), n(64)}, T[types.Int64], errT)[0], T[types.Int64], b)
			}
			return x.convert(st, call(x, st, "strconv.ParseUint", []Val{v, n(10), n(64)}, T[types.Uint64], errT)[0], T[types.Uint64], b)
		case a == str && isF(b):
			return x.convert(st, call(x, st, "strconv.ParseFloat", []Val{v, n(64)}, T[types.Float64], errT)[0], T[types.Float64], b)
		case a == boo && (isInt(b) || isF(b)):
			t := x.decide(st, v.(VBool).B)
			if isInt(b) {
				if t {
					return n(1)
				}
				return n(0)
			}
			if t {
				return x.constTerm(1, b)
			}
			return x.zero(b)
		case b == boo && isInt(a):
			return bconst(!x.decideEQ(st, x.num(v)))
		case b == boo && isF(a):
			return bconst(!x.decide(st, x.equal(st, v, x.zero(a), a)))
		case a == boo && b == str:
			return call(x, st, "strconv.FormatBool", []Val{v}, str)[0]
		case a == str && b == boo:
			return call(x, st, "strconv.ParseBool", []Val{v}, boo, errT)[0]
		}
		return x.convert(st, v, a, b)
	}
	for _, p := range pairs {
		p := p
		a, b := p[0], p[1]
		r.Obl(convPkg+" "+tstr(a)+" to "+tstr(b), func(c *Case) {
			x := c.X
			x.inits[g.pk] = x0.inits[g.pk]
			for k, v := range x0.globs {
				x.globs[k] = v
				x.globID[v] = true
			}
			x.nobj = x0.nobj
			x.ST = x0.ST
			x.bases = x0.bases
			x.nuniq = x0.nuniq
			st := NewState()
			x.global(st, g.maps[0])
			var v Val
			if s, ok := a.(*types.Slice); ok {
				n := x.lenSym("n")
				v = x.newSlice(st, whole(x.base("e", s.Elem()), n), n, n, s.Elem())
			} else {
				v = x.fresh("v", a)
			}
			fn := r.P.Fn(convPkg, "Into")
			c.Each(c.Call(st, fn, tmFor(fn, []types.Type{a, b}), v), noPan(func(st *State, q Ret) string {
				if !x.decide(st, q.vals[1].(VBool).B) {
					return "no converter is registered"
				}
				w := want(c, st, v, a, b)
				if _, ok := b.(*types.Slice); ok {
					got, _ := x.content(st, q.vals[0])
					ws, _ := x.content(st, w)
					return x.seqIs(st, "result", got, ws)
				}
				if _, ok := b.(*types.Basic); ok && b == boo {
					return x.boolIs(st, "result", q.vals[0], x.decide(st, w.(VBool).B))
				}
				return x.valIs(st, "result", q.vals[0], w)
			}))
		})
	}
}

// constTerm is a small floating-point constant.
func (x *Exec) constTerm(n int64, t types.Type) Val {
	return x.constant(ssa.NewConst(constantInt(n), t), t)
}

func constantInt(n int64) constant.Value { return constant.MakeInt64(n) }

func init() {
	register(&Prop{ID: "C16", Title: "converter registry", Pkgs: []string{convPkg}, Min: 27,
		Rule: "abstract interpretation with a lock-set of the registry functions on an arbitrary registry, with type parameters, interface types and concrete types: what a lookup finds after each operation on the same and on another pair, no access outside the lock, no converter called under it, inner maps never shared",
		Run:  runConv})
	register(&Prop{ID: "C17", Title: "converter table", Pkgs: []string{convPkg}, Min: 198,
		Rule: "abstract interpretation of the package initialiser, then of the lookup and the registered converter for every pair of the table and every value; result compared with the Go conversion or the strconv call",
		Run:  runConvTable})
}
