package main

// Helpers shared by the properties.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tmFor binds the type parameters of fn to targs, in order.
func tmFor(fn *ssa.Function, targs []types.Type) TM {
	tps := fn.TypeParams()
	tm := TM{}
	for i := 0; i < tps.Len() && i < len(targs); i++ {
		tm[tps.At(i)] = targs[i]
	}
	return tm
}

// typeArgs are the type parameters of a generic type, used as its own
// (opaque) arguments.
func typeArgs(n *types.Named) []types.Type {
	var r []types.Type
	for i := 0; i < n.TypeParams().Len(); i++ {
		r = append(r, n.TypeParams().At(i))
	}
	return r
}

func structOf(t types.Type) *types.Struct {
	s, ok := under(t).(*types.Struct)
	if !ok {
		panic(undecided{"struct expected: " + tstr(t)})
	}
	return s
}

// fieldBy finds the one field whose type satisfies ok; among several, the
// one whose name contains one of the hints, else the k-th.
func fieldBy(t types.Type, k int, ok func(types.Type) bool, hints ...string) int {
	s := structOf(t)
	var c []int
	for i := 0; i < s.NumFields(); i++ {
		if ok(s.Field(i).Type()) {
			c = append(c, i)
		}
	}
	if len(c) > 1 {
		for _, h := range hints {
			for _, i := range c {
				if strings.EqualFold(s.Field(i).Name(), h) {
					return i
				}
			}
		}
		for _, h := range hints {
			for _, i := range c {
				if strings.Contains(strings.ToLower(s.Field(i).Name()), strings.ToLower(h)) {
					return i
				}
			}
		}
	}
	if k < len(c) {
		return c[k]
	}
	panic(undecided{fmt.Sprintf("no field for role %v in %s", hints, tstr(t))})
}

func hasField(t types.Type, ok func(types.Type) bool) bool {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if ok(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func isPtrTo(t types.Type, q func(types.Type) bool) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && q(p.Elem())
}

func isNamed(t types.Type, full string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path()+"."+n.Obj().Name() == full
}

// getF, setF access a field of a struct object.
func (x *Exec) getF(st *State, p VPtr, i int) Val {
	o := st.objs[p.Obj]
	return x.getPath(st, o.V, append(p.Path[:len(p.Path):len(p.Path)], PE{F: i}), o.T)
}

func (x *Exec) setF(st *State, p VPtr, i int, v Val) {
	o := *st.objs[p.Obj]
	o.V = x.setPath(st, o.V, append(p.Path[:len(p.Path):len(p.Path)], PE{F: i}), v, o.T)
	st.objs[p.Obj] = &o
}

// Ctor runs a constructor that must have one outcome returning one pointer.
func (c *Case) Ctor(st *State, fn *ssa.Function, tm TM, args ...Val) (*State, VPtr) {
	rs := c.Call(st, fn, tm, args...)
	var good []Ret
	for _, r := range rs {
		if r.pan != nil {
			c.X.fail("constructor %s %s", fn.Name(), panMsg(r.pan))
		}
		good = append(good, r)
	}
	if len(good) != 1 {
		c.X.fail("constructor %s has %d outcomes", fn.Name(), len(good))
	}
	p, ok := good[0].vals[0].(VPtr)
	if !ok {
		c.X.fail("constructor %s returns %s", fn.Name(), c.X.show(good[0].vals[0]))
	}
	return good[0].st, p
}

// Group runs obligations under each candidate invariant until one has no
// violation; otherwise the violations of the best candidate stand.
func (r *Run) Group(cands []string, f func(r *Run, cand string)) {
	var best *Run
	for _, cd := range cands {
		s := &Run{P: r.P, Prop: r.Prop, fns: r.fns, tier: r.tier, only: r.only, verb: r.verb, ex: r.ex, last: r.last, grouped: true}
		if r.verb && len(cands) > 1 {
			fmt.Printf("-- candidate invariant %s\n", cd)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(undecided); ok {
						s.fail("anchors", "", "undecided: %s", u.msg)
						return
					}
					panic(e)
				}
			}()
			f(s, cd)
		}()
		if best == nil || len(s.viol) < len(best.viol) {
			best = s
		}
		if len(best.viol) == 0 {
			break
		}
	}
	r.obls = append(r.obls, best.obls...)
	r.viol = append(r.viol, best.viol...)
}

// seqIs compares sequences inside a check.
func (x *Exec) seqIs(st *State, what string, got, want Seq) string {
	if ok, why := x.seqEq(st, got, want); !ok {
		return fmt.Sprintf("%s is %s, expected %s: %s", what, x.showSeq(x.normSeq(st, got)), x.showSeq(want), why)
	}
	return ""
}

func (x *Exec) valIs(st *State, what string, got, want Val) string {
	if !x.valEq(st, got, want) {
		return fmt.Sprintf("%s is %s, expected %s", what, x.show(got), x.show(want))
	}
	return ""
}

func (x *Exec) numIs(st *State, what string, got Val, want Lin) string {
	n, ok := got.(VNum)
	if !ok || !x.decideEQ(st, n.L.Sub(want)) {
		return fmt.Sprintf("%s is %s, expected %s", what, x.show(got), x.l(want))
	}
	return ""
}

func (x *Exec) boolIs(st *State, what string, got Val, want bool) string {
	b, ok := got.(VBool)
	if !ok {
		return what + " is not a boolean"
	}
	if x.decide(st, b.B) != want {
		return fmt.Sprintf("%s is %v, expected %v", what, !want, want)
	}
	return ""
}

func first(ms ...string) string {
	for _, m := range ms {
		if m != "" {
			return m
		}
	}
	return ""
}

// fieldsSame checks that every field of *p except those listed is as before.
func isPtr(v Val) bool { _, ok := v.(VPtr); return ok }
