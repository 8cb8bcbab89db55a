package main

// Singly linked containers: queue (C01), stack (C02), list (C04).

import (
	"fmt"
	"go/types"
	"strings"
)

// linked describes one linked container type by the roles of its fields.
type linked struct {
	pkg, typ   string
	named      *types.Named
	targs      []types.Type
	node       *types.Named
	nd         *NodeDesc
	head, tail int
	elem       types.Type
}

func newLinked(p *Program, pkg, typ string) *linked {
	l := &linked{pkg: pkg, typ: typ, named: p.Type(pkg, typ), tail: -1}
	l.targs = typeArgs(l.named)
	l.elem = l.targs[0]
	s := structOf(l.named)
	// node: a struct type of this package with a pointer to itself
	var ptrs []int
	for i := 0; i < s.NumFields(); i++ {
		pt, ok := types.Unalias(s.Field(i).Type()).(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := types.Unalias(pt.Elem()).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != l.named.Obj().Pkg() {
			continue
		}
		l.node = n
		ptrs = append(ptrs, i)
	}
	if len(ptrs) > 2 {
		// the ends go by their names
		h, t := -1, -1
		for _, i := range ptrs {
			switch strings.ToLower(s.Field(i).Name()) {
			case "head", "first", "front", "top":
				h = i
			case "tail", "last", "rear", "back", "end":
				t = i
			}
		}
		if h >= 0 && t >= 0 {
			ptrs = []int{h, t}
		}
	}
	if l.node == nil || len(ptrs) > 2 {
		panic(undecided{"list structure of " + typ + " is not recognised"})
	}
	l.head = ptrs[0]
	if len(ptrs) == 2 {
		l.tail = ptrs[1]
		a, b := strings.ToLower(s.Field(ptrs[0]).Name()), strings.ToLower(s.Field(ptrs[1]).Name())
		for _, n := range []string{"tail", "last", "rear", "back", "end"} {
			if strings.Contains(a, n) && !strings.Contains(b, n) {
				l.head, l.tail = ptrs[1], ptrs[0]
			}
		}
	}
	ns := structOf(l.node)
	d := &NodeDesc{Named: l.node.Origin().Obj(), NF: ns.NumFields(), Data: -1, Next: -1}
	for i := 0; i < ns.NumFields(); i++ {
		if isPtrTo(ns.Field(i).Type(), func(t types.Type) bool {
			n, ok := types.Unalias(t).(*types.Named)
			return ok && n.Origin() == l.node.Origin()
		}) {
			d.Next = i
		} else {
			d.Data = i
		}
	}
	if d.NF != 2 || d.Data < 0 || d.Next < 0 {
		panic(undecided{"node structure of " + typ + " is not recognised"})
	}
	l.nd = d
	return l
}

// inv is a candidate representation invariant.
type linkInv struct {
	emptyTailNil bool // an empty container has a nil tail
	emptyHeadAny bool // emptiness is told by the tail or the length alone
	poolZero     bool // recycled nodes have a nil link
}

var linkCands = []string{"stale-tail/any-pool", "nil-tail/any-pool", "stale-tail/zero-pool", "nil-tail/zero-pool"}

func parseLinkInv(s string) linkInv {
	return linkInv{emptyTailNil: strings.Contains(s, "nil-tail"), poolZero: strings.Contains(s, "zero-pool")}
}

func (c *Case) linkState(l *linked, inv linkInv, empty bool) (*State, VPtr, *Base, Lin) {
	x := c.X
	x.nodes = append(x.nodes, l.nd)
	ctor := c.r.P.Fn(l.pkg, "New")
	st, p := c.Ctor(NewState(), ctor, tmFor(ctor, l.targs))
	x.H.PoolNode = func(st *State, nt types.Type) Val {
		f := make([]Val, l.nd.NF)
		f[l.nd.Data] = x.fresh("recycled", l.elem)
		if inv.poolZero {
			f[l.nd.Next] = VNil{}
		} else {
			f[l.nd.Next] = x.fresh("stalelink", types.NewPointer(l.node))
		}
		return VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: l.node, V: VStruct{f}})}
	}
	b := x.base("B", l.elem)
	n := x.lenSym("n")
	if empty {
		st.cons = append(st.cons, EQ(n, K(0)))
		n = K(0)
		x.setF(st, p, l.head, VNil{})
		if l.tail >= 0 {
			if inv.emptyTailNil {
				x.setF(st, p, l.tail, VNil{})
			} else {
				x.setF(st, p, l.tail, x.fresh("staletail", types.NewPointer(l.node)))
			}
		}
	} else {
		st.cons = append(st.cons, GE(n, K(1)))
		f := make([]Val, l.nd.NF)
		var end Val = VNil{}
		run := n
		if l.tail >= 0 {
			f[l.nd.Data] = x.elem(b, n.AddI(-1))
			f[l.nd.Next] = VNil{}
			last := VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: l.node, V: VStruct{f}})}
			x.setF(st, p, l.tail, last)
			end = last
			run = n.AddI(-1)
		}
		h := VPtr{Obj: x.newObj(st, &Obj{Kind: ORun, T: l.node, C: seg(b, K(0), run), Next: end, ND: l.nd})}
		x.setF(st, p, l.head, h)
	}
	c.setExtra(st, p, l.named, &n, l.head, l.tail)
	st.trace = nil
	return st, p, b, n
}

// chain reads the sequence from a head pointer.
func (x *Exec) chain(st *State, l *linked, head Val) (s Seq, last Val, ids map[int]bool, why string) {
	ids = map[int]bool{}
	cur := head
	last = VNil{}
	for i := 0; i < 100; i++ {
		switch p := cur.(type) {
		case VNil:
			return s, last, ids, ""
		case VPtr:
			if len(p.Path) > 0 {
				return nil, nil, ids, "link into the middle of an object"
			}
			if ids[p.Obj] {
				return nil, nil, ids, "the links form a cycle"
			}
			ids[p.Obj] = true
			o := st.objs[p.Obj]
			if o == nil {
				return nil, nil, ids, "dangling link"
			}
			if o.Kind == ORun {
				s = seqCat(s, o.C)
				n := o.C.Len()
				if x.decideEQ(st, n.AddI(-1)) {
					last = p
				} else if x.decideGE(st, n.AddI(-2)) {
					last = VTop{}
				}
				cur = o.Next
				continue
			}
			f, ok := o.V.(VStruct)
			if !ok || len(f.F) != l.nd.NF {
				return nil, nil, ids, "a link leads to something that is not a node"
			}
			s = append(s[:len(s):len(s)], Piece{Kind: POne, V: x.unTag(f.F[l.nd.Data])})
			last = p
			cur = f.F[l.nd.Next]
		case VTerm:
			if p.NN {
				return nil, nil, ids, "a link leads to " + x.show(p)
			}
			if x.isNil(st, p) {
				return s, last, ids, ""
			}
			return nil, nil, ids, "a stale link " + x.show(p) + " is reachable"
		default:
			return nil, nil, ids, "a link leads to " + x.show(cur)
		}
	}
	return nil, nil, ids, "the chain is too long"
}

// checkLinked checks the invariant and the content of the container at p.
func (x *Exec) checkLinked(st *State, l *linked, inv linkInv, p VPtr, want Seq) string {
	s, last, ids, why := x.chain(st, l, x.getF(st, p, l.head))
	if why != "" {
		return "after the call " + why
	}
	if m := x.seqIs(st, "content after the call", s, want); m != "" {
		return m
	}
	empty := x.decideEQ(st, want.Len())
	if l.tail >= 0 {
		t := x.getF(st, p, l.tail)
		if empty {
			if inv.emptyTailNil {
				if _, ok := t.(VNil); !ok && !x.isNil(st, t) {
					return "the container is empty but still has a last node"
				}
			}
		} else {
			if tp, ok := t.(VPtr); !ok || last == nil || x.key(tp) != x.key(last) {
				return fmt.Sprintf("the last-node pointer is %s, the last node is %s", x.show(t), x.show(last))
			}
		}
	}
	seen := map[int]bool{}
	for _, id := range st.pooled {
		if ids[id] {
			return "a node still linked into the container was given back to the pool"
		}
		if seen[id] {
			return "a node was given to the pool twice"
		}
		seen[id] = true
		if inv.poolZero {
			if o := st.objs[id]; o != nil && o.Kind == OMem {
				if f, ok := o.V.(VStruct); ok {
					if _, ok := f.F[l.nd.Next].(VNil); !ok {
						return "a recycled node keeps a link"
					}
				}
			}
		}
	}
	if len(st.ops) > 0 {
		return "writes through a stale pointer " + x.show(st.ops[0].Ptr)
	}
	if len(st.locks) > 0 {
		return "returns with a lock held"
	}
	return ""
}

// cont is a container type with a representation invariant.
type cont struct {
	pkg, typ string
	targs    []types.Type
	elem     types.Type
	cases    []string
	mk       func(c *Case, cs string) (*State, VPtr, *Base, Lin)
	check    func(c *Case, st *State, p VPtr, want Seq) string
}

type opSpec func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string)

func (r *Run) linked(l *linked, inv linkInv) *cont {
	return &cont{pkg: l.pkg, typ: l.typ, targs: l.targs, elem: l.elem, cases: []string{"empty", "non-empty"},
		mk: func(c *Case, cs string) (*State, VPtr, *Base, Lin) { return c.linkState(l, inv, cs == "empty") },
		check: func(c *Case, st *State, p VPtr, want Seq) string {
			n := want.Len()
			return first(c.X.checkLinked(st, l, inv, p, want), c.okExtra(st, p, l.named, &n, l.head, l.tail))
		}}
}

// op checks method m against a specification from every state the invariant
// allows. The specification gives the expected content and judges results.
func (r *Run) op(k *cont, m string, args func(c *Case, st *State) []Val, spec opSpec) {
	for _, cs := range k.cases {
		cs := cs
		r.Obl(fmt.Sprintf("%s %s.%s, %s", k.pkg, k.typ, m, cs), func(c *Case) {
			st, p, b, n := k.mk(c, cs)
			st.ghost["self"] = p
			fn := r.P.Fn(k.pkg, k.typ+"."+m)
			var a []Val
			if args != nil {
				a = args(c, st)
			}
			for _, st := range c.parts(st, a, n) {
				_, ptr := types.Unalias(fn.Signature.Recv().Type()).(*types.Pointer)
				rs := c.Call(st, fn, tmFor(fn, k.targs), append([]Val{c.recv(st, p, ptr)}, a...)...)
				c.Each(rs, func(s *State, q Ret) string {
					if q.pan != nil {
						return panMsg(q.pan)
					}
					want, why := spec(c, s, b, n, a, q.vals)
					if why != "" {
						return why
					}
					return k.check(c, s, p, want)
				})
			}
		})
	}
}

// parts splits a state by how each integer argument lies against 0 and n,
// and against each other, so that loop invariants stay convex.
func (c *Case) parts(st *State, args []Val, n Lin) []*State {
	x := c.X
	var ls []Lin
	for _, a := range args {
		if v, ok := a.(VNum); ok {
			if _, sym := v.L.isSym(); sym {
				ls = append(ls, v.L)
			}
		}
	}
	if len(ls) == 0 {
		return []*State{st}
	}
	sign := func(s *State, l Lin) {
		if x.decideGE(s, l) {
			x.decideEQ(s, l)
		}
	}
	rs := x.fork(st, func(s *State) []Ret {
		for i, l := range ls {
			if x.decideGE(s, l) {
				sign(s, l.Sub(n))
			}
			for _, m := range ls[:i] {
				sign(s, l.Sub(m))
			}
		}
		return []Ret{{}}
	})
	var out []*State
	for _, r := range rs {
		out = append(out, r.st)
	}
	return out
}

func (r *Run) newOp(k *cont, nodes ...*NodeDesc) {
	r.Obl(k.pkg+" New", func(c *Case) {
		c.X.nodes = append(c.X.nodes, nodes...)
		ctor := r.P.Fn(k.pkg, "New")
		c.Each(c.Call(NewState(), ctor, tmFor(ctor, k.targs)), func(s *State, q Ret) string {
			if q.pan != nil {
				return panMsg(q.pan)
			}
			p, ok := q.vals[0].(VPtr)
			if !ok {
				return "New returns " + c.X.show(q.vals[0])
			}
			return k.check(c, s, p, nil)
		})
	})
}

func tokArg(e types.Type) func(c *Case, st *State) []Val {
	return func(c *Case, st *State) []Val { return []Val{c.X.termV(VTerm{Fn: "v"}, e)} }
}

// takeFirst is the specification of removing (or reading) an end.
func takeSpec(idx func(n Lin) Lin, after func(b *Base, n Lin) Seq) func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
	return func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		x := c.X
		if x.decideEQ(st, n) {
			return nil, first(x.valIs(st, "value", res[0], x.zero(b.Elem)), x.boolIs(st, "ok", res[1], false))
		}
		return after(b, n), first(x.boolIs(st, "ok", res[1], true), x.valIs(st, "value", res[0], x.elem(b, idx(n))))
	}
}

func whole(b *Base, n Lin) Seq { return seg(b, K(0), n) }

func init() {
	register(&Prop{ID: "C04", Title: "lists", Pkgs: []string{"dsx/linkedx/listx", "dsx/slicex/listx"}, Min: 25,
		Rule: "abstract interpretation of every list method over list segments and slices of every length with every index; inductive representation invariant; content, results and callback order compared with the specification on every outcome",
		Run: func(r *Run) {
			l := newLinked(r.P, "dsx/linkedx/listx", "List")
			r.Group(linkCands, func(r *Run, cand string) {
				inv := parseLinkInv(cand)
				k := r.linked(l, inv)
				r.newOp(k, l.nd)
				r.listOps(k)
			})
			r.listOps(sliceCont(r.P, "dsx/slicex/listx", "List"))
		}})
	register(&Prop{ID: "C01", Title: "linked queue is FIFO", Pkgs: []string{"dsx/linkedx/queuex"}, Min: 9,
		Rule: "abstract interpretation of every method of the linked queue over list-segment shapes of every length; inductive representation invariant; content compared with the FIFO specification on every outcome",
		Run: func(r *Run) {
			l := newLinked(r.P, "dsx/linkedx/queuex", "Queue")
			r.Group(linkCands, func(r *Run, cand string) {
				inv := parseLinkInv(cand)
				k := r.linked(l, inv)
				r.newOp(k, l.nd)
				r.op(k, "Enqueue", tokArg(l.elem), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
					return seqCat(whole(b, n), one(a[0])), c.X.boolIs(st, "result", res[0], true)
				})
				zero := func(Lin) Lin { return K(0) }
				r.op(k, "Dequeue", nil, takeSpec(zero, func(b *Base, n Lin) Seq { return seg(b, K(1), n) }))
				r.op(k, "Peek", nil, takeSpec(zero, whole))
				r.op(k, "IsEmpty", nil, emptySpec)
			})
		}})
	register(&Prop{ID: "C02", Title: "stacks are LIFO", Pkgs: []string{"dsx/linkedx/stackx", "dsx/slicex/stackx"}, Min: 9,
		Rule: "abstract interpretation of every stack method over list segments and slices of every length; inductive representation invariant; content and length compared with the LIFO specification on every outcome",
		Run: func(r *Run) {
			l := newLinked(r.P, "dsx/linkedx/stackx", "Stack")
			r.Group(linkCands, func(r *Run, cand string) {
				inv := parseLinkInv(cand)
				k := r.linked(l, inv)
				r.newOp(k, l.nd)
				r.op(k, "Push", tokArg(l.elem), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
					return seqCat(one(a[0]), whole(b, n)), c.X.boolIs(st, "result", res[0], true)
				})
				zero := func(Lin) Lin { return K(0) }
				r.op(k, "Pop", nil, takeSpec(zero, func(b *Base, n Lin) Seq { return seg(b, K(1), n) }))
				r.op(k, "Peek", nil, takeSpec(zero, whole))
				r.op(k, "Len", nil, lenSpec)
			})
			k := sliceCont(r.P, "dsx/slicex/stackx", "Stack")
			last := func(n Lin) Lin { return n.AddI(-1) }
			r.newOp(k)
			r.op(k, "Push", tokArg(k.elem), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
				return seqCat(whole(b, n), one(a[0])), c.X.boolIs(st, "result", res[0], true)
			})
			r.op(k, "Pop", nil, takeSpec(last, func(b *Base, n Lin) Seq { return seg(b, K(0), n.AddI(-1)) }))
			r.op(k, "Peek", nil, takeSpec(last, whole))
			r.op(k, "Len", nil, lenSpec)
			r.op(k, "IsEmpty", nil, emptySpec)
		}})
}

func lenSpec(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
	return whole(b, n), c.X.numIs(st, "Len", res[0], n)
}

func emptySpec(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
	return whole(b, n), c.X.boolIs(st, "result", res[0], c.X.decideEQ(st, n))
}

// sliceOf makes a slice holding B[0:n) with unknown room behind it.
func (x *Exec) sliceOf(st *State, b *Base, n Lin, et types.Type) VSlice {
	cap := x.lenSym("cap")
	st.cons = append(st.cons, GE(cap, n))
	room := x.base("room("+b.Name+")", et)
	v := x.newSlice(st, Seq{{Kind: PSeg, B: b, From: K(0), To: n}, {Kind: PSeg, B: room, From: K(0), To: cap.Sub(n)}}, n, cap, et)
	st.objs[v.Obj].Fresh = false
	return v
}

// sliceCont is a container kept in one slice: a slice type, or a struct
// whose only data is a slice.
func sliceCont(p *Program, pkg, typ string) *cont {
	named := p.Type(pkg, typ)
	k := &cont{pkg: pkg, typ: typ, targs: typeArgs(named), cases: []string{"nil slice", "slice of any length"}}
	k.elem = k.targs[0]
	fd := -1
	get := func(x *Exec, st *State, q VPtr) Val { return x.load(st, q, named) }
	put := func(x *Exec, st *State, q VPtr, v Val) { x.store(st, q, v, named) }
	if s, ok := under(named).(*types.Struct); ok {
		f := fieldBy(named, 0, func(t types.Type) bool { _, ok := coreOf(t).(*types.Slice); return ok })
		_ = s
		fd = f
		get = func(x *Exec, st *State, q VPtr) Val { return x.getF(st, q, f) }
		put = func(x *Exec, st *State, q VPtr, v Val) { x.setF(st, q, f, v) }
	}
	k.mk = func(c *Case, cs string) (*State, VPtr, *Base, Lin) {
		x := c.X
		st := NewState()
		b := x.base("B", k.elem)
		q := VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: named, V: x.zero(named)})}
		if cs == "nil slice" {
			n := K(0)
			if fd >= 0 {
				c.setExtra(st, q, named, &n, fd)
			}
			return st, q, b, n
		}
		n := x.lenSym("n")
		put(x, st, q, x.sliceOf(st, b, n, k.elem))
		if fd >= 0 {
			c.setExtra(st, q, named, &n, fd)
		}
		return st, q, b, n
	}
	k.check = func(c *Case, st *State, q VPtr, want Seq) string {
		got, n := c.X.content(st, get(c.X, st, q))
		w := first(c.X.seqIs(st, "content after the call", got, want), c.X.numIs(st, "length", VNum{n}, want.Len()))
		if w == "" && fd >= 0 {
			m := want.Len()
			w = c.okExtra(st, q, named, &m, fd)
		}
		return w
	}
	return k
}

func indexArg(x *Exec) VNum { return VNum{x.intSym("i", types.Typ[types.Int])} }

func (r *Run) listOps(k *cont) {
	inRange := func(x *Exec, st *State, i, n Lin, incl int64) bool {
		return x.decideGE(st, i) && x.decideGE(st, n.Sub(i).AddI(incl-1))
	}
	r.op(k, "Append", tokArg(k.elem), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		return seqCat(whole(b, n), one(a[0])), ""
	})
	r.op(k, "Insert", func(c *Case, st *State) []Val {
		return []Val{indexArg(c.X), tokArg(k.elem)(c, st)[0]}
	}, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		i := c.X.num(a[0])
		if !inRange(c.X, st, i, n, 1) {
			return whole(b, n), ""
		}
		return seqCat(seg(b, K(0), i), seqCat(one(a[1]), seg(b, i, n))), ""
	})
	idx := func(c *Case, st *State) []Val { return []Val{indexArg(c.X)} }
	r.op(k, "Remove", idx, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		i := c.X.num(a[0])
		if !inRange(c.X, st, i, n, 0) {
			return whole(b, n), first(c.X.boolIs(st, "ok", res[1], false), c.X.valIs(st, "value", res[0], c.X.zero(b.Elem)))
		}
		return seqCat(seg(b, K(0), i), seg(b, i.AddI(1), n)), first(c.X.boolIs(st, "ok", res[1], true), c.X.valIs(st, "value", res[0], c.X.elem(b, i)))
	})
	r.op(k, "At", idx, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		i := c.X.num(a[0])
		if !inRange(c.X, st, i, n, 0) {
			return whole(b, n), first(c.X.boolIs(st, "ok", res[1], false), c.X.valIs(st, "value", res[0], c.X.zero(b.Elem)))
		}
		return whole(b, n), first(c.X.boolIs(st, "ok", res[1], true), c.X.valIs(st, "value", res[0], c.X.elem(b, i)))
	})
	r.op(k, "Len", nil, lenSpec)
	f := func(c *Case, st *State) []Val { return []Val{VTerm{Fn: "f", NN: true}} }
	r.op(k, "Iterate", f, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		return whole(b, n), c.X.visitsUntil(st, a[0], b, n, false)
	})
}

// visitsUntil checks that the trace calls f on B[0], B[1], ... in order and
// stops after the first call that returns stop, or at n.
func (x *Exec) visitsUntil(st *State, f Val, b *Base, n Lin, stop bool) string {
	return x.visits(st, f, []Val{VElem{b, S(0)}}, n, stop)
}

// visits is visitsUntil for a call with the given arguments at index S(0).
func (x *Exec) visits(st *State, f Val, args []Val, n Lin, stop bool) string {
	tm := VTerm{Fn: "call:", Args: append([]Val{f}, args...)}
	rb := x.base("res0:"+x.key(tm)+"#0", types.Typ[types.Bool])
	m := K(0)
	for _, p := range st.trace {
		m = m.Add(p.Len())
	}
	want := Seq{{Kind: PEv, V: VTuple{[]Val{tm}}, From: K(0), To: m}}
	if ok, why := x.seqEq(st, st.trace, want); !ok {
		return "calls are " + x.showSeq(st.trace) + ", expected one for each element in order: " + why
	}
	if !x.decideGE(st, n.Sub(m)) {
		return "more calls than elements"
	}
	tf := Fact{"is", []Val{VElem{rb, S(0)}}}
	if x.decideEQ(st, m.Sub(n)) {
		// ran to the end: all but the last said to go on
		if x.decideEQ(st, m) {
			return ""
		}
		if !x.truthOn(st, tf, K(0), m.AddI(-1), !stop) {
			return "continued after a call that asked to stop"
		}
		return ""
	}
	if !x.decideGE(st, m.AddI(-1)) || !x.truthOn(st, tf, K(0), m.AddI(-1), !stop) || !x.truthOn(st, tf, m.AddI(-1), m, stop) {
		return "stopped early although no call asked to stop"
	}
	return ""
}
