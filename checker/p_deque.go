package main

// Double-ended queue kept in linked chunks (C03).

import (
	"fmt"
	"go/types"
	"strings"
)

type deque struct {
	pkg, typ         string
	named, node      *types.Named
	targs            []types.Type
	elem             types.Type
	head, tail       int
	data, start, end int
	next, prev       int
	slots            int64
}

func newDeque(p *Program, pkg, typ string) *deque {
	d := &deque{pkg: pkg, typ: typ, named: p.Type(pkg, typ)}
	d.targs = typeArgs(d.named)
	d.elem = d.targs[0]
	isNode := func(t types.Type) bool {
		return isPtrTo(t, func(e types.Type) bool {
			n, ok := types.Unalias(e).(*types.Named)
			if !ok || n.Obj().Pkg() != d.named.Obj().Pkg() {
				return false
			}
			_, st := n.Underlying().(*types.Struct)
			if st {
				d.node = n
			}
			return st
		})
	}
	d.head = fieldBy(d.named, 0, isNode, "head", "first", "front")
	d.tail = fieldBy(d.named, 1, isNode, "tail", "last", "back", "rear")
	ns := structOf(d.node)
	if ns.NumFields() != 5 {
		panic(undecided{"chunk structure of the deque is not recognised"})
	}
	d.data = fieldBy(d.node, 0, func(t types.Type) bool { _, ok := under(t).(*types.Array); return ok })
	d.slots = under(ns.Field(d.data).Type()).(*types.Array).Len()
	d.start = fieldBy(d.node, 0, isInt, "start", "begin", "first", "low", "from", "front", "left")
	d.end = fieldBy(d.node, 1, isInt, "end", "stop", "last", "high", "to", "back", "right")
	d.next = fieldBy(d.node, 0, isNode, "next")
	d.prev = fieldBy(d.node, 1, isNode, "prev", "previous", "back")
	if d.start == d.end || d.next == d.prev || d.head == d.tail {
		panic(undecided{"fields of the deque are not recognised"})
	}
	return d
}

type dequeMid struct {
	left, right VPtr // chunks around the unknown middle
	m1, m2      Val
	from, to    Lin
}

func (r *Run) deque(d *deque, cand string) *cont {
	poolNil := strings.Contains(cand, "pool-nil")
	var mid *dequeMid
	k := &cont{pkg: d.pkg, typ: d.typ, targs: d.targs, elem: d.elem,
		cases: []string{"empty", "1 chunk", "2 chunks", "3 chunks", "4 chunks", "5 or more chunks"}}
	k.mk = func(c *Case, cs string) (*State, VPtr, *Base, Lin) {
		x := c.X
		mid = nil
		ctor := c.r.P.Fn(d.pkg, "New")
		st, p := c.Ctor(NewState(), ctor, tmFor(ctor, d.targs))
		nodeP := types.NewPointer(d.node)
		x.H.PoolNode = func(st *State, nt types.Type) Val {
			f := make([]Val, 5)
			f[d.data] = VArr{Seq{{Kind: PMix, B: x.base("junk", d.elem), N: K(d.slots)}}, K(d.slots)}
			f[d.start] = x.fresh("recycled start", types.Typ[types.Int])
			f[d.end] = x.fresh("recycled end", types.Typ[types.Int])
			f[d.next], f[d.prev] = VNil{}, VNil{}
			if !poolNil {
				f[d.next] = x.fresh("stale next", nodeP)
				f[d.prev] = x.fresh("stale prev", nodeP)
			}
			return VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: d.node, V: VStruct{f}})}
		}
		b := x.base("B", d.elem)
		cnt := map[string]int{"empty": 0, "1 chunk": 1, "2 chunks": 2, "3 chunks": 3, "4 chunks": 4, "5 or more chunks": 4}[cs]
		pos := K(0)
		var chunks []VPtr
		var midFrom, midTo Lin
		for i := 0; i < cnt; i++ {
			if i == 2 && strings.HasPrefix(cs, "5") {
				midFrom = pos
				m := x.lenSym("mid")
				st.cons = append(st.cons, GE(m, K(1)))
				pos = pos.Add(m)
				midTo = pos
			}
			s := x.symRange(fmt.Sprintf("start%d", i), big0, bigOf(d.slots))
			e := x.symRange(fmt.Sprintf("end%d", i), big0, bigOf(d.slots))
			st.cons = append(st.cons, LT(s, e))
			n := e.Sub(s)
			f := make([]Val, 5)
			junk := func(n Lin) Piece { return Piece{Kind: PMix, B: x.base("junk", d.elem), N: n} }
			f[d.data] = VArr{Seq{junk(s), {Kind: PSeg, B: b, From: pos, To: pos.Add(n)}, junk(K(d.slots).Sub(e))}, K(d.slots)}
			f[d.start], f[d.end] = VNum{s}, VNum{e}
			f[d.next], f[d.prev] = VNil{}, VNil{}
			pos = pos.Add(n)
			chunks = append(chunks, VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: d.node, V: VStruct{f}})})
		}
		for i := range chunks {
			if i > 0 {
				x.setF(st, chunks[i], d.prev, chunks[i-1])
			}
			if i+1 < len(chunks) {
				x.setF(st, chunks[i], d.next, chunks[i+1])
			}
		}
		if strings.HasPrefix(cs, "5") {
			m1 := x.tok("middle chunk", nodeP)
			m2 := x.tok("middle chunk", nodeP)
			m1.NN, m2.NN = true, true
			mid = &dequeMid{chunks[1], chunks[2], m1, m2, midFrom, midTo}
			x.setF(st, chunks[1], d.next, m1)
			x.setF(st, chunks[2], d.prev, m2)
		}
		if cnt > 0 {
			x.setF(st, p, d.head, chunks[0])
			x.setF(st, p, d.tail, chunks[cnt-1])
		} else {
			x.setF(st, p, d.head, VNil{})
			x.setF(st, p, d.tail, VNil{})
		}
		c.setExtra(st, p, d.named, &pos, d.head, d.tail)
		st.trace = nil
		return st, p, b, pos
	}
	k.check = func(c *Case, st *State, p VPtr, want Seq) string {
		x := c.X
		var got Seq
		var prev Val = VNil{}
		cur := x.getF(st, p, d.head)
		ids := map[int]bool{}
		for i := 0; ; i++ {
			if i > 20 {
				return "the chunks form a cycle"
			}
			if mid != nil && x.key(cur) == x.key(mid.m1) {
				if x.key(prev) != x.key(Val(mid.left)) {
					return "the chunk before the middle changed without its link being updated"
				}
				got = append(got, Piece{Kind: PSeg, B: x.base("B", d.elem), From: mid.from, To: mid.to})
				prev = mid.m2
				cur = mid.right
				continue
			}
			if _, ok := cur.(VTerm); ok && x.isNil(st, cur) {
				cur = VNil{}
			}
			if _, ok := cur.(VNil); ok {
				break
			}
			q, ok := cur.(VPtr)
			if !ok || len(q.Path) > 0 {
				return "a link leads to " + x.show(cur)
			}
			if ids[q.Obj] {
				return "the chunks form a cycle"
			}
			ids[q.Obj] = true
			bp := x.getF(st, q, d.prev)
			if _, ok := prev.(VNil); ok {
				if !x.isNil(st, bp) {
					return "the first chunk still has a previous one: " + x.show(bp)
				}
			} else if x.key(bp) != x.key(prev) {
				return fmt.Sprintf("a chunk's previous link is %s, the previous chunk is %s", x.show(bp), x.show(prev))
			}
			s, e := x.num(x.getF(st, q, d.start)), x.num(x.getF(st, q, d.end))
			if !x.decideGE(st, s) || !x.decideGE(st, K(d.slots).Sub(e)) || !x.decideGE(st, e.Sub(s).AddI(-1)) {
				return fmt.Sprintf("a chunk holds slots [%s, %s)", x.l(s), x.l(e))
			}
			arr, ok := x.getF(st, q, d.data).(VArr)
			if !ok {
				return "chunk without data"
			}
			got = seqCat(got, x.seqSub(st, arr.C, s, e.Sub(s)))
			prev = q
			cur = x.getF(st, q, d.next)
		}
		tail := x.getF(st, p, d.tail)
		if _, ok := prev.(VNil); ok {
			if !x.isNil(st, tail) {
				return "the deque is empty but still has a last chunk"
			}
		} else if x.key(tail) != x.key(prev) {
			return fmt.Sprintf("the last-chunk pointer is %s, the last chunk is %s", x.show(tail), x.show(prev))
		}
		if m := x.seqIs(st, "content after the call", got, want); m != "" {
			return m
		}
		seen := map[int]bool{}
		for _, id := range st.pooled {
			if ids[id] {
				return "a chunk still in use was given back to the pool"
			}
			if seen[id] {
				return "a chunk was given to the pool twice"
			}
			seen[id] = true
			if poolNil {
				q := VPtr{Obj: id}
				if !x.isNil(st, x.getF(st, q, d.next)) || !x.isNil(st, x.getF(st, q, d.prev)) {
					return "a recycled chunk keeps a link"
				}
			}
		}
		if len(st.ops) > 0 {
			return "writes through a pointer to a distant chunk: " + x.show(st.ops[0].Ptr)
		}
		n := want.Len()
		return c.okExtra(st, p, d.named, &n, d.head, d.tail)
	}
	return k
}

func init() {
	register(&Prop{ID: "C03", Title: "deque", Pkgs: []string{"dsx/linkedx/dequex"}, Min: 37,
		Rule: "abstract interpretation of every deque method over every chunk shape (0 to 4 chunks and any longer chain, every fill of every chunk); inductive representation invariant; content compared with the two-ended sequence specification on every outcome",
		Run: func(r *Run) {
			d := newDeque(r.P, "dsx/linkedx/dequex", "Deque")
			r.Group([]string{"pool-nil", "pool-any"}, func(r *Run, cand string) {
				k := r.deque(d, cand)
				r.newOp(k)
				r.op(k, "PushFront", tokArg(d.elem), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
					return seqCat(one(a[0]), whole(b, n)), ""
				})
				r.op(k, "PushBack", tokArg(d.elem), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
					return seqCat(whole(b, n), one(a[0])), ""
				})
				zero := func(Lin) Lin { return K(0) }
				last := func(n Lin) Lin { return n.AddI(-1) }
				r.op(k, "PopFront", nil, takeSpec(zero, func(b *Base, n Lin) Seq { return seg(b, K(1), n) }))
				r.op(k, "PopBack", nil, takeSpec(last, func(b *Base, n Lin) Seq { return seg(b, K(0), n.AddI(-1)) }))
				r.op(k, "PeekFront", nil, takeSpec(zero, whole))
				r.op(k, "PeekBack", nil, takeSpec(last, whole))
			})
		}})
}
