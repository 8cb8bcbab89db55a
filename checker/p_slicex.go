package main

// Slice utilities (C06: indices, C07: ownership and callbacks).

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func slicexCont(p *Program) *cont {
	k := sliceCont(p, "dsx/slicex", "Slice")
	k.cases = []string{"nil slice", "slice of any length"}
	return k
}

// clamp brings i into [0, hi], splitting as needed.
func (x *Exec) clamp(st *State, i, hi Lin) Lin {
	if !x.decideGE(st, i) {
		return K(0)
	}
	if !x.decideGE(st, hi.Sub(i)) {
		return hi
	}
	return i
}

func (x *Exec) order2(st *State, i, j Lin) (Lin, Lin) {
	if !x.decideGE(st, j.Sub(i)) {
		return j, i
	}
	return i, j
}

func intArgs(n int) func(c *Case, st *State) []Val {
	return func(c *Case, st *State) []Val {
		var vs []Val
		for i := 0; i < n; i++ {
			vs = append(vs, VNum{c.X.intSym([]string{"i", "j"}[i], types.Typ[types.Int])})
		}
		return vs
	}
}

// manyArg is a caller's slice of any length with room behind it.
func manyArg(c *Case, st *State, et types.Type) Val {
	m := c.X.lenSym("m")
	v := c.X.sliceOf(st, c.X.base("A", et), m, et)
	st.ghost["args"] = v
	st.ghost["args.content"] = st.objs[v.Obj].V
	return v
}

// argsKept checks that a caller's slice, and the room behind it, is as it was.
func (x *Exec) argsKept(st *State) string {
	v, ok := st.ghost["args"].(VSlice)
	if !ok {
		return ""
	}
	a, b := st.objs[v.Obj].V.(VArr), st.ghost["args.content"].(VArr)
	return x.seqIs(st, "memory of the caller's argument slice", a.C, b.C)
}

func (r *Run) slicexIndex(k *cont) {
	self := func(c *Case, st *State, v Val) string { return c.X.valIs(st, "result", v, st.ghost["self"]) }
	val := tokArg(k.elem)
	cat := func(ss ...Seq) (r Seq) {
		for _, s := range ss {
			r = seqCat(r, s)
		}
		return
	}
	// one index and a value
	iv := func(c *Case, st *State) []Val { return []Val{intArgs(1)(c, st)[0], val(c, st)[0]} }
	iVar := func(n int) func(c *Case, st *State) []Val {
		return func(c *Case, st *State) []Val { return append(intArgs(n)(c, st), manyArg(c, st, k.elem)) }
	}
	splice := func(c *Case, st *State, b *Base, n, i, j Lin, v Seq) Seq {
		i, j = c.X.clamp(st, i, n), c.X.clamp(st, j, n)
		i, j = c.X.order2(st, i, j)
		return cat(seg(b, K(0), i), v, seg(b, j, n))
	}
	args := func(c *Case, st *State) Seq {
		s, _ := c.X.content(st, st.ghost["args"])
		return s
	}
	r.op(k, "Len", nil, lenSpec)
	r.op(k, "Finalize", nil, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		s, _ := c.X.content(st, res[0])
		return whole(b, n), c.X.seqIs(st, "result", s, whole(b, n))
	})
	r.op(k, "Extend", func(c *Case, st *State) []Val {
		v := intArgs(1)(c, st)
		st.cons = append(st.cons, LE(c.X.num(v[0]), KB(pow2(40))))
		return v
	}, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		m := c.X.clamp(st, c.X.num(a[0]), KB(pow2(40)))
		return cat(whole(b, n), Seq{{Kind: PRep, V: c.X.zero(k.elem), N: m}}), self(c, st, res[0])
	})
	r.op(k, "Clear", nil, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		return nil, self(c, st, res[0])
	})
	r.op(k, "Set", iv, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		if c.X.decideEQ(st, n) {
			return nil, ""
		}
		i := c.X.clamp(st, c.X.num(a[0]), n.AddI(-1))
		return cat(seg(b, K(0), i), one(a[1]), seg(b, i.AddI(1), n)), ""
	})
	r.op(k, "Get", intArgs(1), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		if c.X.decideEQ(st, n) {
			return nil, c.X.valIs(st, "value", res[0], c.X.zero(k.elem))
		}
		i := c.X.clamp(st, c.X.num(a[0]), n.AddI(-1))
		return whole(b, n), c.X.valIs(st, "value", res[0], c.X.elem(b, i))
	})
	r.op(k, "Slice", intArgs(2), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		x := c.X
		i, j := x.num(a[0]), x.num(a[1])
		if !x.decideGE(st, j) {
			j = n.Add(j)
		}
		i, j = x.clamp(st, i, n), x.clamp(st, j, n)
		i, j = x.order2(st, i, j)
		return seg(b, i, j), self(c, st, res[0])
	})
	r.op(k, "Splice", iVar(2), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		return splice(c, st, b, n, c.X.num(a[0]), c.X.num(a[1]), args(c, st)), first(self(c, st, res[0]), c.X.argsKept(st))
	})
	r.op(k, "Expand", iVar(1), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		i := c.X.num(a[0])
		return splice(c, st, b, n, i, i, args(c, st)), first(self(c, st, res[0]), c.X.argsKept(st))
	})
	r.op(k, "Insert", iv, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		i := c.X.num(a[0])
		return splice(c, st, b, n, i, i, one(a[1])), self(c, st, res[0])
	})
	r.op(k, "Cut", intArgs(2), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		return splice(c, st, b, n, c.X.num(a[0]), c.X.num(a[1]), nil), self(c, st, res[0])
	})
	r.op(k, "Delete", intArgs(1), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		x := c.X
		i := x.num(a[0])
		if !x.decideGE(st, n.Sub(i).AddI(-1)) {
			return whole(b, n), self(c, st, res[0])
		}
		return splice(c, st, b, n, i, i.AddI(1), nil), self(c, st, res[0])
	})
	r.op(k, "Push", val, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		return cat(whole(b, n), one(a[0])), self(c, st, res[0])
	})
	r.op(k, "UnShift", val, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		return cat(one(a[0]), whole(b, n)), self(c, st, res[0])
	})
	take := func(idx func(n Lin) Lin, after func(b *Base, n Lin) Seq) opSpec {
		return func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
			if c.X.decideEQ(st, n) {
				return nil, c.X.valIs(st, "value", res[0], c.X.zero(k.elem))
			}
			return after(b, n), c.X.valIs(st, "value", res[0], c.X.elem(b, idx(n)))
		}
	}
	r.op(k, "Pop", nil, take(func(n Lin) Lin { return n.AddI(-1) }, func(b *Base, n Lin) Seq { return seg(b, K(0), n.AddI(-1)) }))
	r.op(k, "Shift", nil, take(func(n Lin) Lin { return K(0) }, func(b *Base, n Lin) Seq { return seg(b, K(1), n) }))
	r.op(k, "DeleteReplace", intArgs(1), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		x := c.X
		if x.decideEQ(st, n) {
			return nil, self(c, st, res[0])
		}
		i := x.clamp(st, x.num(a[0]), n.AddI(-1))
		if x.decideEQ(st, i.Sub(n).AddI(1)) {
			return seg(b, K(0), n.AddI(-1)), self(c, st, res[0])
		}
		return cat(seg(b, K(0), i), seg(b, n.AddI(-1), n), seg(b, i.AddI(1), n.AddI(-1))), self(c, st, res[0])
	})
	r.op(k, "Reverse", nil, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		if c.X.decideEQ(st, n) {
			return nil, self(c, st, res[0])
		}
		return Seq{{Kind: PRev, B: b, From: n.AddI(-1), To: K(-1)}}, self(c, st, res[0])
	})
	r.op(k, "Rotate", intArgs(1), func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		x := c.X
		if x.decideEQ(st, n) {
			return nil, self(c, st, res[0])
		}
		m := x.arith(st, token.REM, x.num(a[0]), n, types.Typ[types.Int], types.Typ[types.Int])
		if !x.decideGE(st, m) {
			m = m.Add(n)
		}
		return cat(seg(b, m, n), seg(b, K(0), m)), self(c, st, res[0])
	})
	r.op(k, "Copy", nil, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		x := c.X
		p, ok := res[0].(VPtr)
		if !ok {
			return nil, "Copy returns " + x.show(res[0])
		}
		if x.key(p) == x.key(st.ghost["self"]) {
			return nil, "Copy returns its receiver"
		}
		v := x.load(st, p, st.objs[p.Obj].T)
		if s, ok := v.(VSlice); ok && !st.objs[s.Obj].Fresh && !x.decideEQ(st, s.Cap) {
			return nil, "the copy shares memory with the original"
		}
		s, _ := x.content(st, v)
		return whole(b, n), x.seqIs(st, "the copy", s, whole(b, n))
	})
}

// op runs the method on the receiver, or on the value it points to.
func (c *Case) recv(st *State, p VPtr, ptr bool) Val {
	if ptr {
		return p
	}
	return c.X.load(st, p, st.objs[p.Obj].T)
}

func init() {
	register(&Prop{ID: "C06", Title: "slice utilities, indices", Pkgs: []string{"dsx/slicex"}, Min: 40,
		Rule: "abstract interpretation of every index method over slices of every length and capacity with every index; content, result and freedom from panics compared with the specification on every outcome",
		Run: func(r *Run) {
			r.slicexIndex(slicexCont(r.P))
		}})
	register(&Prop{ID: "C07", Title: "slice utilities, callbacks", Pkgs: []string{"dsx/slicex"}, Min: 12,
		Rule: "abstract interpretation of every callback method over slices of every length with an arbitrary callback; order and number of calls, results and content compared with the specification on every outcome",
		Run: func(r *Run) {
			r.slicexCalls(slicexCont(r.P))
		}})
}

// calls checks that the trace is f(args(i)) for i in [0,n), once each in order.
func (x *Exec) callsAll(st *State, f Val, n Lin, args ...Val) string {
	if x.decideEQ(st, n) {
		if len(st.trace) != 0 {
			return "calls the callback for an empty slice"
		}
		return ""
	}
	tm := VTerm{Fn: "call:", Args: append([]Val{f}, args...)}
	want := Seq{{Kind: PEv, V: VTuple{[]Val{tm}}, From: K(0), To: n}}
	if ok, why := x.seqEq(st, st.trace, want); !ok {
		return "calls are " + x.showSeq(st.trace) + ", expected one for each element in order: " + why
	}
	return ""
}

func (r *Run) slicexCalls(k *cont) {
	f := func(c *Case, st *State) []Val { return []Val{VTerm{Fn: "f", NN: true}} }
	found := func(c *Case, st *State, b *Base, n Lin, a []Val) (Lin, bool, string) {
		x := c.X
		if m := x.visitsUntil(st, a[0], b, n, true); m != "" {
			return Lin{}, false, m
		}
		m := K(0)
		for _, p := range st.trace {
			m = m.Add(p.Len())
		}
		if x.decideEQ(st, m) {
			return m, false, ""
		}
		rb := x.base("res0:"+x.key(VTerm{Fn: "call:", Args: []Val{a[0], VElem{b, S(0)}}})+"#0", types.Typ[types.Bool])
		return m.AddI(-1), x.decideFact(st, Fact{"is", []Val{VElem{rb, m.AddI(-1)}}}), ""
	}
	r.op(k, "IndexOf", f, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		i, ok, m := found(c, st, b, n, a)
		if m != "" {
			return nil, m
		}
		if !ok {
			i = K(-1)
		}
		return whole(b, n), c.X.numIs(st, "result", res[0], i)
	})
	r.op(k, "Contains", f, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		_, ok, m := found(c, st, b, n, a)
		if m != "" {
			return nil, m
		}
		return whole(b, n), c.X.boolIs(st, "result", res[0], ok)
	})
	r.op(k, "Each", f, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		return whole(b, n), c.X.callsAll(st, a[0], n, VElem{b, S(0)})
	})
	r.op(k, "ForEach", f, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		return whole(b, n), c.X.callsAll(st, a[0], n, VNum{S(0)}, VElem{b, S(0)})
	})
	r.op(k, "Filter", f, func(c *Case, st *State, b *Base, n Lin, a, res []Val) (Seq, string) {
		x := c.X
		if x.decideEQ(st, n) {
			return nil, x.valIs(st, "result", res[0], st.ghost["self"])
		}
		tm := VTerm{Fn: "call:", Args: []Val{a[0], VElem{b, S(0)}}}
		rb := x.base("res0:"+x.key(tm)+"#0", types.Typ[types.Bool])
		v := x.load(st, st.ghost["self"], st.objs[st.ghost["self"].(VPtr).Obj].T)
		ln := x.lenOf(st, v)
		return Seq{{Kind: PFilt, B: b, From: K(0), To: n, N: ln, Pred: &Pred{F: Fact{"is", []Val{VElem{rb, S(0)}}}}}},
			first(x.valIs(st, "result", res[0], st.ghost["self"]), x.callsAll(st, a[0], n, VElem{b, S(0)}))
	})
	for _, cs := range k.cases {
		cs := cs
		r.Obl(k.pkg+" Slice.Shuffle, "+cs, func(c *Case) {
			x := c.X
			st, p, b, n := k.mk(c, cs)
			if !r.calls(r.P.Fn(k.pkg, "Slice.Shuffle"), "math/rand.Shuffle", "math/rand/v2.Shuffle") && cs != "nil slice" {
				r.ownShuffle(k, c, st, p, n)
				return
			}
			perm := x.base("permuted", k.elem)
			x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
				if name != "math/rand.Shuffle" && name != "math/rand/v2.Shuffle" {
					return nil, false
				}
				return x.fork(st, func(st *State) []Ret {
					m := x.num(args[0])
					if !x.decideGE(st, m) {
						panic(goPanic{"argument", "invalid argument to Shuffle"})
					}
					if x.decideEQ(st, m) {
						return ret(st)
					}
					if m := x.numIs(st, "number of elements shuffled", args[0], n); m != "" {
						x.fail("%s", m)
					}
					// any call of swap exchanges two elements and changes nothing else
					one := st.clone()
					i, j := x.lenSym("si"), x.lenSym("sj")
					one.cons = append(one.cons, LT(i, n), LT(j, n))
					ss := sig.Params().At(1).Type().(*types.Signature)
					saved := x.H.Call
					x.H.Call = nil
					for _, q := range x.invoke(one, args[1], []Val{VNum{i}, VNum{j}}, ss) {
						x.fork(q.st, func(s *State) []Ret {
							if q.pan != nil {
								x.fail("swap %s", panMsg(q.pan))
							}
							lo, hi := x.order2(s, i, j)
							want := seqCat(seqCat(seg(b, K(0), lo), seg(b, hi, hi.AddI(1))), seqCat(seqCat(seg(b, lo.AddI(1), hi), seg(b, lo, lo.AddI(1))), seg(b, hi.AddI(1), n)))
							if x.decideEQ(s, lo.Sub(hi)) {
								want = whole(b, n)
							}
							if m := k.check(c, s, p, want); m != "" {
								x.fail("after one swap %s", m)
							}
							return nil
						})
					}
					x.H.Call = saved
					v, ok := x.load(st, p, st.objs[p.Obj].T).(VSlice)
					if !ok {
						x.fail("the slice was replaced")
					}
					o := *st.objs[v.Obj]
					arr := o.V.(VArr)
					arr.C = x.seqPut(st, arr.C, v.Off, seg(perm, K(0), n), n)
					o.V = arr
					st.objs[v.Obj] = &o
					st.ghost["shuffled"] = VNil{}
					return ret(st)
				}), true
			}
			fn := r.P.Fn(k.pkg, "Slice.Shuffle")
			c.Each(c.Call(st, fn, tmFor(fn, k.targs), p), func(s *State, q Ret) string {
				if q.pan != nil {
					return panMsg(q.pan)
				}
				if s.ghost["shuffled"] == nil && !x.decideGE(s, n.AddI(-2)) {
					return first(x.valIs(s, "result", q.vals[0], p), k.check(c, s, p, whole(b, n)))
				}
				return first(x.valIs(s, "result", q.vals[0], p), k.check(c, s, p, whole(perm, n)))
			})
		})
	}
	// Split and Batch: the pieces stored into the result tile the slice.
	tile := func(m string, args func(c *Case, st *State) []Val, piece func(c *Case, st *State, v VSlice, n Lin) string) {
		for _, cs := range k.cases {
			r.Obl(k.pkg+" Slice."+m+", "+cs, func(c *Case) {
				x := c.X
				st, p, _, n := k.mk(c, cs)
				st.cons = append(st.cons, LE(n, KB(pow2(40))))
				self, _ := x.load(st, p, st.objs[p.Obj].T).(VSlice)
				st.ghost["self"], st.ghost["tiled"] = p, VNum{K(0)}
				a := args(c, st)
				x.H.StoreVal = func(st *State, q Val, v Val) Val {
					s, ok := v.(VSlice)
					if !ok || self.Obj == 0 || s.Obj != self.Obj {
						return v
					}
					if e, ok := q.(VPtr); !ok || len(e.Path) == 0 || e.Path[len(e.Path)-1].Idx == nil {
						return v // a variable that holds the slice, not a list of pieces
					}
					if m := x.numIs(st, "start of the next piece", VNum{s.Off}, x.num(st.ghost["tiled"])); m != "" {
						x.fail("%s", m)
					}
					if piece != nil {
						if m := piece(c, st, s, n); m != "" {
							x.fail("%s", m)
						}
					}
					st.ghost["tiled"] = VNum{s.Off.Add(s.Len)}
					return VTerm{Fn: "piece", NN: true}
				}
				fn := r.P.Fn(k.pkg, "Slice."+m)
				_, ptr := types.Unalias(fn.Signature.Recv().Type()).(*types.Pointer)
				c.Each(c.Call(st, fn, tmFor(fn, k.targs), append([]Val{c.recv(st, p, ptr)}, a...)...), func(s *State, q Ret) string {
					if q.pan != nil {
						return panMsg(q.pan)
					}
					if self.Obj == 0 {
						return k.check(c, s, p, nil)
					}
					return first(x.numIs(s, "end of the last piece", s.ghost["tiled"], n),
						k.check(c, s, p, whole(x.base("B", k.elem), n)))
				})
			})
		}
	}
	tile("Split", func(c *Case, st *State) []Val {
		m := c.X.lenSym("m")
		st.cons = append(st.cons, LE(m, KB(pow2(40))))
		return []Val{c.X.sliceOf(st, c.X.base("lengths", types.Typ[types.Uint32]), m, types.Typ[types.Int])}
	}, nil)
	tile("Batch", func(c *Case, st *State) []Val {
		v := intArgs(1)(c, st)
		st.cons = append(st.cons, LE(c.X.num(v[0]), KB(pow2(40))))
		st.ghost["size"] = v[0]
		return v
	}, func(c *Case, st *State, v VSlice, n Lin) string {
		x := c.X
		size := x.num(st.ghost["size"])
		if !x.decideGE(st, size.AddI(-1)) {
			size = K(1)
		}
		if x.decideEQ(st, n.Sub(v.Off).Sub(v.Len)) {
			return ""
		}
		return x.numIs(st, "length of a batch that is not the last", VNum{v.Len}, size)
	})
}

// calls reports whether a function, or one it calls in its package, calls one
// of those named.
func (r *Run) calls(fn *ssa.Function, names ...string) bool {
	seen := map[*ssa.Function]bool{}
	var in func(fn *ssa.Function) bool
	in = func(fn *ssa.Function) bool {
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, n := range names {
			if fn.String() == n {
				return true
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						if o := f.Origin(); o != nil {
							f = o
						}
						if in(f) {
							return true
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			if in(a) {
				return true
			}
		}
		return false
	}
	return in(fn)
}

// ownShuffle: wherever one element is at first, it is in exactly one place at
// the end, and the others, which cannot be told apart, fill the rest.
func (r *Run) ownShuffle(k *cont, c *Case, st *State, p VPtr, n Lin) {
	x := c.X
	at := x.lenSym("at")
	st.cons = append(st.cons, LT(at, n))
	the, other := x.tok("the element", k.elem), x.tok("another", k.elem)
	rep := func(n Lin) Piece { return Piece{Kind: PRep, V: other, N: n} }
	v, ok := x.load(st, p, st.objs[p.Obj].T).(VSlice)
	if !ok {
		x.fail("no slice")
	}
	o := *st.objs[v.Obj]
	arr := o.V.(VArr)
	arr.C = x.seqPut(st, arr.C, v.Off, Seq{rep(at), {Kind: POne, V: the}, rep(n.Sub(at).AddI(-1))}, n)
	o.V = arr
	st.objs[v.Obj] = &o
	fn := r.P.Fn(k.pkg, "Slice.Shuffle")
	c.Each(c.Call(st, fn, tmFor(fn, k.targs), p), noPan(func(s *State, q Ret) string {
		got, m := x.content(s, x.load(s, p, s.objs[p.Obj].T))
		if w := first(x.valIs(s, "result", q.vals[0], p), x.numIs(s, "length", VNum{m}, n)); w != "" {
			return w
		}
		before := K(0)
		for _, g := range got {
			if g.Kind == POne && x.key(g.V) == x.key(the) {
				return x.seqIs(s, "content", got, Seq{rep(before), {Kind: POne, V: the}, rep(n.Sub(before).AddI(-1))})
			}
			before = before.Add(g.Len())
		}
		return "an element is lost: " + x.showSeq(got)
	}))
}
