package main

// The ring queue (C05).

import (
	"go/types"
	"strings"
)

type ring struct {
	named            *types.Named
	data, head, tail int
	cap              int // -1 if the capacity is only in the slice
}

func newRing(p *Program) *ring {
	r := &ring{named: p.Type("dsx/slicex/queuex", "Ring"), cap: -1}
	s := structOf(r.named)
	r.data = fieldBy(r.named, 0, func(t types.Type) bool { _, ok := coreOf(t).(*types.Slice); return ok })
	var ints []int
	for i := 0; i < s.NumFields(); i++ {
		if i == r.data {
			continue
		}
		if !isInt(s.Field(i).Type()) {
			continue
		}
		n := strings.ToLower(s.Field(i).Name())
		if strings.Contains(n, "cap") || strings.Contains(n, "size") || strings.Contains(n, "slots") {
			r.cap = i
			continue
		}
		ints = append(ints, i)
	}
	if len(ints) > 2 {
		// the ends go by their names
		h, t := -1, -1
		for _, i := range ints {
			switch strings.ToLower(s.Field(i).Name()) {
			case "head", "read", "front", "first", "start":
				h = i
			case "tail", "write", "rear", "back", "last", "end":
				t = i
			}
		}
		if h >= 0 && t >= 0 {
			ints = []int{h, t}
		}
	}
	if len(ints) != 2 {
		panic(undecided{"structure of Ring is not recognised"})
	}
	r.head, r.tail = ints[0], ints[1]
	for _, n := range []string{"head", "read", "front", "first", "start"} {
		if strings.Contains(strings.ToLower(s.Field(r.tail).Name()), n) {
			r.head, r.tail = ints[1], ints[0]
		}
	}
	return r
}

func (r *Run) ring(d *ring) *cont {
	k := &cont{pkg: "dsx/slicex/queuex", typ: "Ring", targs: typeArgs(d.named), cases: []string{"in one piece", "wrapped around"}}
	k.elem = k.targs[0]
	k.mk = func(c *Case, cs string) (*State, VPtr, *Base, Lin) {
		x := c.X
		st := NewState()
		b := x.base("B", k.elem)
		q := VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: d.named, V: x.zero(d.named)})}
		n, h, slots := x.lenSym("n"), x.lenSym("h"), x.lenSym("slots")
		st.cons = append(st.cons, GE(slots, K(2)), LT(h, slots), LT(n, slots))
		var tail Lin
		var content Seq
		g1, g2 := x.base("unused1", k.elem), x.base("unused2", k.elem)
		if cs == "in one piece" {
			tail = h.Add(n)
			st.cons = append(st.cons, LT(tail, slots))
			content = Seq{{Kind: PSeg, B: g1, From: K(0), To: h}, {Kind: PSeg, B: b, From: K(0), To: n}, {Kind: PSeg, B: g2, From: K(0), To: slots.Sub(tail)}}
		} else {
			tail = h.Add(n).Sub(slots)
			st.cons = append(st.cons, GE(tail, K(0)))
			content = Seq{{Kind: PSeg, B: b, From: slots.Sub(h), To: n}, {Kind: PSeg, B: g1, From: K(0), To: h.Sub(tail)}, {Kind: PSeg, B: b, From: K(0), To: slots.Sub(h)}}
		}
		v := x.newSlice(st, content, slots, slots, k.elem)
		st.objs[v.Obj].Fresh = false
		x.setF(st, q, d.data, v)
		x.setF(st, q, d.head, VNum{h})
		x.setF(st, q, d.tail, VNum{tail})
		if d.cap >= 0 {
			x.setF(st, q, d.cap, VNum{slots})
		}
		c.setExtra(st, q, d.named, &n, d.data, d.head, d.tail, d.cap)
		st.ghost["slots"] = VNum{slots}
		return st, q, b, n
	}
	k.check = func(c *Case, st *State, q VPtr, want Seq) string {
		x := c.X
		slots := x.num(st.ghost["slots"])
		data, n := x.content(st, x.getF(st, q, d.data))
		if m := x.numIs(st, "number of slots", VNum{n}, slots); m != "" {
			return m
		}
		if d.cap >= 0 {
			if m := x.numIs(st, "recorded number of slots", x.getF(st, q, d.cap), slots); m != "" {
				return m
			}
		}
		h, t := x.num(x.getF(st, q, d.head)), x.num(x.getF(st, q, d.tail))
		for _, l := range []Lin{h, t} {
			if !x.decideGE(st, l) || !x.decideGE(st, slots.Sub(l).AddI(-1)) {
				return "an index of the ring is " + x.l(l) + ", outside its " + x.l(slots) + " slots"
			}
		}
		var got Seq
		if x.decideGE(st, t.Sub(h)) {
			got = x.seqSub(st, data, h, t.Sub(h))
		} else {
			got = seqCat(x.seqSub(st, data, h, slots.Sub(h)), x.seqSub(st, data, K(0), t))
		}
		sz := want.Len()
		return first(x.seqIs(st, "content after the call", got, want), c.okExtra(st, q, d.named, &sz, d.data, d.head, d.tail, d.cap))
	}
	return k
}

func init() {
	register(&Prop{ID: "C05", Title: "ring queue", Pkgs: []string{"dsx/slicex/queuex"}, Min: 15,
		Rule: "abstract interpretation of every method of the ring over every slot count, head position and fill, in one piece and wrapped; content, results and capacity compared with the bounded FIFO specification on every outcome",
		Run: func(r *Run) {
			d := newRing(r.P)
			k := r.ring(d)
			r.Obl("dsx/slicex/queuex New", func(c *Case) {
				x := c.X
				fn := r.P.Fn("dsx/slicex/queuex", "New")
				st := NewState()
				n := x.lenSym("capacity")
				st.cons = append(st.cons, GE(n, K(1)), LE(n, KB(pow2(40))))
				st.ghost["slots"] = VNum{n.AddI(1)}
				c.Each(c.Call(st, fn, tmFor(fn, k.targs), VNum{n}), func(s *State, q Ret) string {
					if q.pan != nil {
						return panMsg(q.pan)
					}
					p, ok := q.vals[0].(VPtr)
					if !ok {
						return "New returns " + x.show(q.vals[0])
					}
					return k.check(c, s, p, nil)
				})
			})
			room := func(c *Case, st *State, n Lin) bool {
				return c.X.decideGE(st, c.X.num(st.ghost["slots"]).Sub(n).AddI(-2))
			}
			r.op(k, "Enqueue", tokArg(k.elem), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
				if !room(c, st, n) {
					return whole(b, n), c.X.boolIs(st, "result", res[0], false)
				}
				return seqCat(whole(b, n), one(a[0])), c.X.boolIs(st, "result", res[0], true)
			})
			zero := func(Lin) Lin { return K(0) }
			r.op(k, "Dequeue", nil, takeSpec(zero, func(b *Base, n Lin) Seq { return seg(b, K(1), n) }))
			r.op(k, "Peek", nil, takeSpec(zero, whole))
			r.op(k, "IsEmpty", nil, emptySpec)
			r.op(k, "IsFull", nil, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
				return whole(b, n), c.X.boolIs(st, "result", res[0], !room(c, st, n))
			})
			r.op(k, "Cap", nil, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
				return whole(b, n), c.X.numIs(st, "Cap", res[0], c.X.num(st.ghost["slots"]).AddI(-1))
			})
			r.op(k, "Head", nil, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
				if c.X.decideEQ(st, n) {
					return nil, ""
				}
				return whole(b, n), c.X.valIs(st, "value", res[0], c.X.elem(b, K(0)))
			})
		}})
}
