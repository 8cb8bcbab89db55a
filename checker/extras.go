package main

// Fields beyond those a specification knows. Their content between two
// operations is governed by a hypothesis found by trial: every operation may
// rely on it and must keep it. Any hypothesis that works is an inductive
// invariant, so the search does not weaken what is shown.

import (
	"fmt"
	"go/types"
	"strings"
)

type extra struct {
	name string
	opts []string
	cur  int
}

// Extras are the hypotheses of one run.
type Extras struct {
	list []*extra
	by   map[string]*extra
}

func (e *Extras) get(name string, opts []string) string {
	h := e.by[name]
	if h == nil {
		h = &extra{name: name, opts: opts}
		e.by[name] = h
		e.list = append(e.list, h)
	}
	return h.opts[h.cur]
}

// next moves on to the next assignment of hypotheses.
func (e *Extras) next() bool {
	for _, h := range e.list {
		if h.cur++; h.cur < len(h.opts) {
			return true
		}
		h.cur = 0
	}
	return false
}

func (e *Extras) String() string {
	var s []string
	for _, h := range e.list {
		s = append(s, h.name+": "+h.opts[h.cur])
	}
	return strings.Join(s, "; ")
}

// isSync: locks and pools are in the state their own rules give.
func isSync(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	switch n.Obj().Name() {
	case "Mutex", "RWMutex", "Pool", "Locker":
		return true
	}
	return false
}

// each extra field: its index, the path and the type of the plain value.
func extraFields(t types.Type, known []int, f func(i int, path []int, ft types.Type, name string)) {
	s := structOf(t)
next:
	for i := 0; i < s.NumFields(); i++ {
		fd := s.Field(i)
		for _, k := range known {
			if k == i {
				continue next
			}
		}
		ft := fd.Type()
		if fd.Name() == "_" || isSync(ft) {
			continue
		}
		path := []int{i}
		if n, ok := types.Unalias(ft).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync") {
			u, ok := under(ft).(*types.Struct)
			if n.Obj().Pkg().Path() != "sync/atomic" || !ok || u.NumFields() == 0 {
				panic(undecided{"field " + fd.Name() + " of " + tstr(t) + " is not understood"})
			}
			path = append(path, u.NumFields()-1)
			ft = u.Field(u.NumFields() - 1).Type()
		}
		if u, ok := under(ft).(*types.Struct); ok && u.NumFields() == 0 {
			continue
		}
		f(i, path, ft, fd.Name())
	}
}

func optsFor(t types.Type, name string, sized bool) []string {
	switch {
	case isInt(t) && sized:
		n := strings.ToLower(name)
		for _, w := range []string{"len", "size", "count", "num", "cnt"} {
			if strings.Contains(n, w) || n == "n" {
				return []string{"size", "any", "zero"}
			}
		}
		return []string{"any", "size", "zero"}
	case isBool(t) && sized:
		return []string{"any", "empty", "not empty", "zero"}
	}
	return []string{"any", "zero"}
}

// anything is any value of the type.
func (x *Exec) anything(name string, t types.Type) Val {
	if a, ok := under(t).(*types.Array); ok && a.Len() <= 64 {
		var c Seq
		for k := int64(0); k < a.Len(); k++ {
			c = append(c, one(x.anything(name, a.Elem()))...)
		}
		return VArr{c, K(a.Len())}
	}
	return x.fresh(name, t)
}

func pathOf(p VPtr, path []int) []PE {
	q := append([]PE{}, p.Path...)
	for _, i := range path {
		q = append(q, PE{F: i})
	}
	return q
}

// setExtra gives the fields of *p other than those known what the hypotheses
// allow. n is the size of the content, if there is one.
func (c *Case) setExtra(st *State, p VPtr, t types.Type, n *Lin, known ...int) {
	x := c.X
	extraFields(t, known, func(i int, path []int, ft types.Type, name string) {
		h := c.r.ex.get(tstr(t)+"."+name, optsFor(ft, name, n != nil))
		q := pathOf(p, path)
		var v Val
		switch h {
		case "any":
			v = x.anything(name, ft)
		case "size":
			v = VNum{*n}
		case "empty", "not empty":
			b := x.cmpLin('e', *n, h == "not empty")
			v = b
		default:
			if c.base == nil {
				c.base = map[string]Val{}
			}
			c.base[fmt.Sprint(p.Obj, q)] = x.getPath(st, st.objs[p.Obj].V, q, st.objs[p.Obj].T)
			return
		}
		o := *st.objs[p.Obj]
		o.V = x.setPath(st, o.V, q, v, o.T)
		st.objs[p.Obj] = &o
	})
}

// okExtra checks the hypotheses after an operation.
func (c *Case) okExtra(st *State, p VPtr, t types.Type, n *Lin, known ...int) string {
	x := c.X
	why := ""
	extraFields(t, known, func(i int, path []int, ft types.Type, name string) {
		if why != "" {
			return
		}
		h := c.r.ex.get(tstr(t)+"."+name, optsFor(ft, name, n != nil))
		q := pathOf(p, path)
		v := x.getPath(st, st.objs[p.Obj].V, q, st.objs[p.Obj].T)
		switch h {
		case "any":
		case "size":
			why = x.numIs(st, "field "+name, v, *n)
		case "empty", "not empty":
			why = x.boolIs(st, "field "+name, v, x.decideEQ(st, *n) == (h == "empty"))
		default:
			b, ok := c.base[fmt.Sprint(p.Obj, q)]
			if !ok {
				b = x.zero(ft)
			}
			if x.key(v) != x.key(b) && !x.valEq(st, v, b) {
				why = "field " + name + " is " + x.show(v) + ", it was " + x.show(b)
			}
		}
	})
	return why
}
