package main

import "go/types"

// The ordered map (C09): a built-in map and a skip list of its keys. The
// entries in key order are key[i], value[i]; the built-in map enumerates them
// in an unrelated order.

const ordPkg = "dsx/mapx/ordmapx"

type ord struct {
	*skl
	om       *types.Named
	fM, fS   int
	ordK, oV types.Type
}

func newOrd(r *Run) *ord {
	o := &ord{om: r.P.Type(ordPkg, "OrdMap")}
	t := typeArgs(o.om)
	o.ordK, o.oV = t[0], t[1]
	o.skl = newSkl(r, t[0], types.NewStruct(nil, nil))
	o.fM = fieldBy(o.om, 0, func(t types.Type) bool { _, ok := under(t).(*types.Map); return ok })
	o.fS = fieldBy(o.om, 0, func(t types.Type) bool {
		return isPtrTo(t, func(t types.Type) bool { return isNamed(t, repoPath+"/"+sklPkg+".SkipListMap") })
	})
	return o
}

type ordSt struct {
	c *Case
	*sklSt
	o      *ord
	self   VPtr
	list   VPtr
	m      int
	values *Base
}

func (c *Case) newOrdSt(o *ord, st *State, how string) *ordSt {
	x := c.X
	s, list := c.newSklSt(o.skl, st, how)
	q := &ordSt{sklSt: s, o: o, list: list, values: x.base("val", o.oV)}
	mt := types.NewMap(o.ordK, o.oV)
	mv := &MapVal{KB: x.base("mapkeys", o.ordK), VB: x.base("mapvalues", o.oV), LK: s.kb, LV: q.values, Name: x.tok("map", mt), Len: s.n, T: mt}
	mv.KB.Dist = true
	q.m = x.newObj(st, &Obj{Kind: OMap, T: mt, M: mv})
	q.self = VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: o.om, V: x.zero(o.om)})}
	x.setF(st, q.self, o.fM, VPtr{Obj: q.m})
	x.setF(st, q.self, o.fS, list)
	if how == "missing" {
		x.setFact(st, Fact{"in", []Val{mv.Name, s.key}}, false)
	}
	c.setExtra(st, q.self, o.om, &s.n, o.fM, o.fS)
	q.c = c
	st.ghost["self"] = q.self
	return q
}

// table checks that exactly the given change was made to the lookup table.
func (q *ordSt) table(st *State, n Lin, want *MapUpd) string {
	x := q.x
	if l, ok := x.getF(st, q.self, q.o.fS).(VPtr); !ok || l.Obj != q.list.Obj {
		return "the map has another list of keys after the call"
	}
	p, ok := x.getF(st, q.self, q.o.fM).(VPtr)
	if !ok || p.Obj != q.m {
		return "the map has another lookup table after the call"
	}
	mv := st.objs[p.Obj].M
	if w := x.numIs(st, "size of the lookup table", VNum{mv.Len}, n); w != "" {
		return w
	}
	hit := false
	for i := len(mv.Upd) - 1; i >= 0; i-- {
		u := mv.Upd[i]
		if hit {
			continue
		}
		if want == nil || !x.valEq(st, u.K, want.K) || u.Del != want.Del || !u.Del && !x.valEq(st, u.V, want.V) {
			return "the lookup table is changed at " + x.show(u.K)
		}
		hit = true
	}
	if want != nil && !hit {
		return "the lookup table is not changed at " + x.show(want.K)
	}
	return q.c.okExtra(st, q.self, q.o.om, &n, q.o.fM, q.o.fS)
}

func (q *ordSt) same(st *State) string {
	return first(q.table(st, q.n, nil), q.after(st, q.list, q.n, nil))
}

func runOrd(r *Run) {
	o := newOrd(r)
	tm := []types.Type{o.ordK, o.oV}
	obl := func(meth string, cases []string, f func(c *Case, q *ordSt, st *State, call func(...Val) []Ret)) {
		for _, how := range cases {
			how := how
			name := meth
			if how != "" {
				name += ", key " + how
			}
			r.Obl(ordPkg+" OrdMap."+name, func(c *Case) {
				st := NewState()
				q := c.newOrdSt(o, st, how)
				f(c, q, st, func(args ...Val) []Ret {
					fn := r.P.Fn(ordPkg, "OrdMap."+meth)
					return c.Call(st, fn, tmFor(fn, tm), append([]Val{q.self}, args...)...)
				})
			})
		}
	}
	empty := func(c *Case, st *State, p VPtr) string {
		x := c.X
		m, ok := x.getF(st, p, o.fM).(VPtr)
		if !ok || !x.emptyMap(st, m) {
			return "the lookup table is not an empty map"
		}
		l, ok := x.getF(st, p, o.fS).(VPtr)
		if !ok {
			return "there is no list of keys"
		}
		zero := K(0)
		return first(o.emptyList(c.X, st, l), c.okExtra(st, p, o.om, &zero, o.fM, o.fS))
	}
	r.Obl(ordPkg+" New", func(c *Case) {
		c.X.H.Coarse = true
		fn := r.P.Fn(ordPkg, "New")
		c.Each(c.Call(NewState(), fn, tmFor(fn, tm)), noPan(func(st *State, q Ret) string {
			p, ok := q.vals[0].(VPtr)
			if !ok {
				return "New returns " + c.X.show(q.vals[0])
			}
			return empty(c, st, p)
		}))
	})
	both := []string{"found", "missing"}
	obl("Set", both, func(c *Case, q *ordSt, st *State, call func(...Val) []Ret) {
		v := c.X.tok("v", o.oV)
		c.Each(call(q.key, v), noPan(func(st *State, r Ret) string {
			u := &MapUpd{K: q.key, V: v}
			if q.found {
				return first(q.table(st, q.n, u), q.after(st, q.list, q.n, nil))
			}
			return first(q.table(st, q.n.AddI(1), u), q.inserted(st, q.list, VStruct{}))
		}))
	})
	obl("Del", both, func(c *Case, q *ordSt, st *State, call func(...Val) []Ret) {
		c.Each(call(q.key), noPan(func(st *State, r Ret) string {
			if q.found {
				return first(q.table(st, q.n.AddI(-1), &MapUpd{K: q.key, Del: true}), q.removed(st, q.list))
			}
			return q.same(st)
		}))
	})
	obl("Get", both, func(c *Case, q *ordSt, st *State, call func(...Val) []Ret) {
		c.Each(call(q.key), noPan(func(st *State, r Ret) string {
			want := c.X.zero(o.oV)
			if q.found {
				want = c.X.elem(q.values, q.p)
			}
			return first(c.X.boolIs(st, "presence", r.vals[1], q.found), c.X.valIs(st, "value", r.vals[0], want), q.same(st))
		}))
	})
	any := []string{""}
	obl("Len", any, func(c *Case, q *ordSt, st *State, call func(...Val) []Ret) {
		c.Each(call(), noPan(func(st *State, r Ret) string {
			return first(c.X.numIs(st, "Len", r.vals[0], q.n), q.same(st))
		}))
	})
	for _, k := range []string{"Keys", "Values"} {
		k := k
		obl(k, any, func(c *Case, q *ordSt, st *State, call func(...Val) []Ret) {
			b := q.kb
			if k == "Values" {
				b = q.values
			}
			c.Each(call(), noPan(func(st *State, r Ret) string {
				got, _ := c.X.content(st, r.vals[0])
				return first(c.X.seqIs(st, "result", got, whole(b, q.n)), q.same(st))
			}))
		})
	}
	obl("Clear", any, func(c *Case, q *ordSt, st *State, call func(...Val) []Ret) {
		c.Each(call(), noPan(func(st *State, r Ret) string { return empty(c, st, q.self) }))
	})
	obl("Range", any, func(c *Case, q *ordSt, st *State, call func(...Val) []Ret) {
		f := c.X.tok("f", types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", o.ordK), types.NewVar(0, nil, "", o.oV)), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false))
		f.NN = true
		c.Each(call(f), noPan(func(st *State, r Ret) string {
			return first(c.X.visits(st, f, []Val{VElem{q.kb, S(0)}, VElem{q.values, S(0)}}, q.n, true), q.same(st))
		}))
	})
}

func init() {
	register(&Prop{ID: "C09", Title: "ordered map", Pkgs: []string{ordPkg, sklPkg}, Min: 12,
		Rule: "abstract interpretation of every method of the ordered map, through the skip list's own code, over every content and key: results, the change of the lookup table and the links of the skip list compared with the map specification on every outcome",
		Run:  runOrd})
}

// emptyMap: the map at m has no entries.
func (x *Exec) emptyMap(st *State, m VPtr) bool {
	v := st.objs[m.Obj].M
	return v != nil && len(v.Upd) == 0 && (v.KB == nil || x.decideEQ(st, v.Len))
}
