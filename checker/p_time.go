package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Interval intersection (C24).

const interPkg = "timex/intersectionx"

func runIntersection(r *Run) {
	fn := r.P.Fn(interPkg, "Intersection")
	ivT := fn.Signature.Params().At(0).Type().(*types.Slice).Elem()
	r.Obl(interPkg+" Intersection", func(c *Case) {
		x := c.X
		x.InitPkg(r.P.pkgs[interPkg])
		st := NewState()
		n := x.lenSym("n")
		st.cons = append(st.cons, LE(n, KB(pow2(40))))
		b := x.base("intervals", ivT)
		v := x.newSlice(st, whole(b, n), n, n, ivT)
		x.rng = func(v Val, t types.Type) (lo, hi *big.Int, ok bool) {
			f, ok := v.(VTerm)
			if !ok || !strings.HasPrefix(f.Fn, ".") {
				return nil, nil, false
			}
			if e, ok := f.Args[0].(VElem); !ok || e.B != b {
				return nil, nil, false
			}
			lo, hi = new(big.Int).Neg(pow2(61)), pow2(61)
			if strings.Contains(f.Fn, "Band") {
				lo = big0
			}
			return lo, hi, true
		}
		// end points are replaced by one opaque value each and reported
		// with their shape
		gathered := func(st *State, v Val, t types.Type, how string) Val {
			var at *Lin
			sh := how + x.elemShape(st, v, b, &at)
			if at == nil {
				z := K(0)
				at = &z
			}
			x.event(st, VTerm{Fn: "gather", Args: []Val{VElem{b, *at}, VTerm{Fn: "shape:" + sh}}})
			return VTerm{Fn: "gathered", T: t}
		}
		x.H.Append = func(st *State, dst Val, e Seq, et types.Type) Seq {
			if _, ok := under(et).(*types.Struct); !ok || st.ghost["sorted"] != nil {
				return e
			}
			n := K(0)
			for _, p := range e {
				n = n.Add(p.Len())
			}
			return Seq{{Kind: PRep, V: gathered(st, VArr{e, n}, et, "append"), N: n}}
		}
		x.H.StoreVal = func(st *State, p Val, v Val) Val {
			q, ok := p.(VPtr)
			if !ok || st.ghost["sorted"] != nil || len(q.Path) == 0 || q.Path[0].Idx == nil {
				return v
			}
			a, ok := st.objs[q.Obj].V.(VArr)
			if !ok || a.N.isConst() {
				return v
			}
			if len(q.Path) == 1 {
				return gathered(st, v, nil, "store")
			}
			return VTerm{Fn: "." + itoa(q.Path[1].F), Args: []Val{gathered(st, v, nil, "store "+itoa(q.Path[1].F))}}
		}
		x.H.Loose = true
		z := newSorter(c)
		x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
			if rs, ok := z.sortTotal(st, name, args, sig); ok {
				return rs, ok
			}
			return nil, false
		}
		c.Each(c.Call(st, fn, nil, v), noPan(func(st *State, q Ret) string {
			got, _ := x.content(st, v)
			if m := x.seqIs(st, "the caller's intervals", got, whole(b, n)); m != "" {
				return m
			}
			lo, hi, ok := x.num(q.vals[0]), x.num(q.vals[1]), q.vals[2].(VBool).B
			ev := st.trace
			yes := x.decide(st, ok)
			if yes && !x.decideGE(st, hi.Sub(lo)) {
				return "reports success with a lower bound above the upper bound"
			}
			if x.decideGE(st, K(1).Sub(n)) {
				return "" // one order only
			}
			// symmetric: the end points are gathered alike from every
			// interval, and everything else is computed from them in
			// sorted order
			if len(ev) > 0 {
				t, isEv := ev[0].V.(VTuple)
				if len(ev) != 1 || ev[0].Kind != PEv || !isEv || len(t.F) == 0 {
					return "the end points are not gathered alike from every interval: " + x.showSeq(ev)
				}
				if m := x.seqIs(st, "the gathering of end points", ev, Seq{{Kind: PEv, V: ev[0].V, From: K(0), To: n}}); m != "" {
					return m
				}
			}
			if s := x.dependsOn(st, b, q.vals); s != "" {
				return "the result depends on " + s + ", which is not in sorted order"
			}
			return ""
		}))
	})
}

// dependsOn looks for an element of b among values and path conditions.
func (x *Exec) dependsOn(st *State, b *Base, vs []Val) string {
	found := ""
	var see func(v Val)
	lin := func(l Lin) {
		for _, t := range l.T {
			if tag, ok := x.ST.info[t.S].tag.(Val); ok {
				see(tag)
			} else if strings.Contains(x.ST.info[t.S].name, b.Name+"[") {
				found = x.ST.info[t.S].name
			}
		}
	}
	see = func(v Val) {
		scanVal(v, func(v Val) {
			switch v := v.(type) {
			case VElem:
				if v.B == b {
					found = x.show(v)
				}
			case VNum:
				lin(v.L)
			case VBool:
				lin(v.B.L)
				for _, a := range v.B.F.Args {
					see(a)
				}
			}
		})
	}
	for _, v := range vs {
		see(v)
	}
	for _, c := range st.cons {
		lin(c.L)
	}
	for _, f := range st.facts {
		for _, a := range f.F.Args {
			see(a)
		}
	}
	return found
}

// elemShape describes a value as a function of one element of b, whose index
// it finds; it fails if the value depends on anything else.
func (x *Exec) elemShape(st *State, v Val, b *Base, at **Lin) string {
	switch v := v.(type) {
	case VNum:
		s := v.L.K.String()
		var ts []string
		for _, t := range v.L.T {
			tag, ok := x.ST.info[t.S].tag.(Val)
			if !ok {
				x.fail("an end point depends on %s", x.ST.info[t.S].name)
			}
			ts = append(ts, t.C.String()+"*"+x.elemShape(st, tag, b, at))
		}
		sort.Strings(ts)
		return "(" + s + "+" + strings.Join(ts, "+") + ")"
	case VElem:
		if v.B == b {
			if *at == nil {
				i := v.Idx
				*at = &i
			} else if !x.decideEQ(st, v.Idx.Sub(**at)) {
				x.fail("an end point depends on two intervals")
			}
			return "interval"
		}
	case VStruct:
		var s []string
		for _, f := range v.F {
			s = append(s, x.elemShape(st, f, b, at))
		}
		return "{" + strings.Join(s, ",") + "}"
	case VTerm:
		if v.Uniq != 0 {
			break
		}
		var s []string
		for _, f := range v.Args {
			s = append(s, x.elemShape(st, f, b, at))
		}
		return v.Fn + "(" + strings.Join(s, ",") + ")"
	case VArr:
		var s []string
		for _, p := range v.C {
			switch p.Kind {
			case POne, PRep:
				n := ""
				if p.Kind == PRep {
					c, ok := p.N.constInt()
					if !ok {
						x.fail("an unknown number of end points is appended at once")
					}
					n = itoa(int(c)) + "*"
				}
				s = append(s, n+x.elemShape(st, p.V, b, at))
			default:
				x.fail("the appended end points are %s", x.show(v))
			}
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	x.fail("an end point depends on %s", x.show(v))
	return ""
}

// sortTotal models a sort. Its order must be total up to identity: elements
// neither of which comes before the other are equal, so that the result does
// not depend on the order in which they were given.
func (z *sorter) sortTotal(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
	x := z.x
	name = stripInst(name)
	less := func(v Val) func(st *State, i, j Lin, a, b Val) []Ret { return nil }
	slice := args
	_ = slice
	var arg Val
	method := func(v VIface, name string, st *State, as ...Val) []Ret {
		pkg := x.P.pkgs[interPkg].Pkg
		f := x.P.Prog.LookupMethod(v.T, pkg, name)
		if f == nil {
			x.fail("no method %s", name)
		}
		return x.invoke(st, x.fnVal(st, f), append([]Val{v.V}, as...), f.Signature)
	}
	iface := false
	switch name {
	case "sort.Sort", "sort.Stable":
		iface = true
		less = func(v Val) func(st *State, i, j Lin, a, b Val) []Ret {
			return func(st *State, i, j Lin, a, b Val) []Ret {
				return method(args[0].(VIface), "Less", st, VNum{i}, VNum{j})
			}
		}
	case "sort.Slice", "sort.SliceStable":
		less = func(v Val) func(st *State, i, j Lin, a, b Val) []Ret {
			return func(st *State, i, j Lin, a, b Val) []Ret {
				return x.invoke(st, args[1], []Val{VNum{i}, VNum{j}}, under(sig.Params().At(1).Type()).(*types.Signature))
			}
		}
	case "slices.SortFunc", "slices.SortStableFunc", "golang.org/x/exp/slices.SortFunc", "golang.org/x/exp/slices.SortStableFunc":
		less = func(v Val) func(st *State, i, j Lin, a, b Val) []Ret {
			return func(st *State, i, j Lin, a, b Val) []Ret {
				return x.invoke(st, args[1], []Val{a, b}, under(sig.Params().At(1).Type()).(*types.Signature))
			}
		}
	default:
		return nil, false
	}
	return x.fork(st, func(st *State) []Ret {
		arg = args[0]
		var et types.Type
		f, isIface := arg.(VIface)
		t := sig.Params().At(0).Type()
		if isIface {
			arg, t = f.V, f.T
		}
		if p, ok := under(t).(*types.Pointer); ok {
			arg, t = x.load(st, arg, p.Elem()), p.Elem()
		}
		s, ok := under(t).(*types.Slice)
		if !ok {
			x.fail("sort of %s", tstr(t))
		}
		et = s.Elem()
		v, ok := arg.(VSlice)
		if !ok {
			return ret(st) // nothing to sort
		}
		if x.decideGE(st, K(1).Sub(v.Len)) {
			return ret(st)
		}
		e := x.base("element", et)
		one := st.clone()
		one.ghost["sorted"] = VNum{K(0)}
		x.retell(one, v, e)
		var ix []Lin
		for _, k := range []string{"i", "j", "k"} {
			l := x.lenSym("s" + k)
			one.cons = append(one.cons, LT(l, v.Len))
			ix = append(ix, l)
		}
		if iface {
			for _, q := range method(f, "Len", one.clone()) {
				if q.pan != nil {
					x.fail("Len %s", panMsg(q.pan))
				}
				if m := x.numIs(q.st, "Len", q.vals[0], v.Len); m != "" {
					x.fail("%s", m)
				}
			}
			for _, q := range method(f, "Swap", one.clone(), VNum{ix[0]}, VNum{ix[1]}) {
				if q.pan != nil {
					x.fail("Swap %s", panMsg(q.pan))
				}
				x.fork(q.st, func(s *State) []Ret {
					lo, hi := x.order2(s, ix[0], ix[1])
					want := seqCat(seqCat(seg(e, K(0), lo), seg(e, hi, hi.AddI(1))), seqCat(seqCat(seg(e, lo.AddI(1), hi), seg(e, lo, lo.AddI(1))), seg(e, hi.AddI(1), v.Len)))
					if x.decideEQ(s, lo.Sub(hi)) {
						want = whole(e, v.Len)
					}
					got, _ := x.content(s, v)
					if m := x.seqIs(s, "after a swap the slice", got, want); m != "" {
						x.fail("%s", m)
					}
					return nil
				})
			}
		}
		z.total(one, v, et, less(arg), ix)
		k := 0
		if p, ok := st.ghost["sorted"]; ok {
			c, _ := x.num(p).constInt()
			k = int(c)
		}
		st.ghost["sorted"] = VNum{K(int64(k + 1))}
		x.retell(st, v, x.base("sorted "+itoa(k), et))
		return ret(st)
	}), true
}

// total checks that less is a strict total order up to identity.
func (z *sorter) total(st *State, v VSlice, et types.Type, less func(st *State, i, j Lin, a, b Val) []Ret, ix []Lin) {
	x := z.x
	type step struct{ i, j int }
	steps := []step{{0, 1}, {1, 0}, {1, 2}, {0, 2}}
	var run func(st *State, k int, res []bool)
	run = func(st *State, k int, res []bool) {
		if k == len(steps) {
			bad := func(f string, as ...any) { z.c.bad(st, "the order of the end points "+f, as...) }
			a, b := x.at(st, v, ix[0], et), x.at(st, v, ix[1], et)
			switch {
			case res[0] && res[1]:
				bad("puts each of two before the other")
			case res[0] && res[2] && !res[3]:
				bad("is not transitive")
			case !res[0] && !res[1] && !z.same(st, a, b, et):
				bad("does not tell %s from %s", x.show(a), x.show(b))
			}
			return
		}
		p := steps[k]
		i, j := ix[p.i], ix[p.j]
		x.fork(st, func(st *State) []Ret {
			a, b := x.at(st, v, i, et), x.at(st, v, j, et)
			for _, q := range less(st, i, j, a, b) {
				if q.pan != nil {
					x.fail("the comparison %s", panMsg(q.pan))
				}
				x.fork(q.st, func(s *State) []Ret {
					var r bool
					if bv, ok := q.vals[0].(VBool); ok {
						r = x.decide(s, bv.B)
					} else {
						r = !x.decideGE(s, x.num(q.vals[0]))
					}
					run(s, k+1, append(res[:len(res):len(res)], r))
					return nil
				})
			}
			return nil
		})
	}
	run(st, 0, nil)
}

// same compares two values field by field.
func (z *sorter) same(st *State, a, b Val, t types.Type) bool {
	x := z.x
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if !z.same(st, x.field(st, a, i, t), x.field(st, b, i, t), ft) {
				return false
			}
		}
		return true
	}
	return x.decide(st, x.equal(st, a, b, t))
}

func init() {
	register(&Prop{ID: "C24", Title: "interval intersection", Pkgs: []string{interPkg}, Min: 1,
		Rule: "over an arbitrary number of arbitrary intervals (offset and band below 2^61, band not negative) the caller's slice is unchanged, success is reported only with lower <= upper, no path panics, the end points are gathered alike from every interval, the order given to the sort is asymmetric, transitive and tells any two different end points apart, and neither result nor path afterwards depends on the intervals in the order given",
		Run:  runIntersection})
}
