package main

// The skip list map (C08) and the ordered map over it (C09).
//
// The nodes of a list with n entries are numbered by rank: 0 is the head,
// 1..n the entries in key order, n+1 the end. A pointer to a node is a
// pointer to object S indexed by its rank, with a witness of how many levels
// of links it certainly has. The link of rank r at level l leads to the next
// rank of more than l levels. For the sought key with p smaller keys, pred(l)
// is the last rank <= p with more than l levels and succ(l) its link, so
// succ(l) > p; every other rank <= p has its link <= pred(l).

import (
	"fmt"
	"go/types"
	"strings"
)

type skl struct {
	r            *Run
	named        *types.Named // SkipListMap
	iter         *types.Named
	node         *types.Named
	K, V         types.Type
	head, tail   []PE // paths inside SkipListMap
	leng         []PE
	fKey, fVal   int
	fNext, fH    int
	levels       int64
	intPaths     [][]PE
	anyPaths     [][]PE
	itNode, itLs int
}

const sklPkg = "dsx/mapx/sklmapx"

func newSkl(r *Run, kv ...types.Type) *skl {
	d := &skl{r: r, named: r.P.Type(sklPkg, "SkipListMap"), iter: r.P.Type(sklPkg, "Iterator"), fKey: -1, fVal: -1, fNext: -1, fH: -1}
	targs := typeArgs(d.named)
	d.K, d.V = targs[0], targs[1]
	if kv != nil {
		d.K, d.V = kv[0], kv[1]
	}
	var ints []struct {
		p []PE
		n string
		t types.Type
	}
	type ptr struct {
		p []PE
		n string
	}
	var ptrs []ptr
	var walk func(t types.Type, p []PE)
	walk = func(t types.Type, p []PE) {
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			q := append(p[:len(p):len(p)], PE{F: i})
			ft := s.Field(i).Type()
			if pt, ok := types.Unalias(ft).(*types.Pointer); ok {
				n, ok := types.Unalias(pt.Elem()).(*types.Named)
				if !ok {
					panic(undecided{"structure of SkipListMap is not recognised"})
				}
				d.node = n
				ptrs = append(ptrs, ptr{q, strings.ToLower(s.Field(i).Name())})
				continue
			}
			if _, ok := under(ft).(*types.Struct); ok {
				walk(ft, q)
				continue
			}
			if isInt(ft) {
				ints = append(ints, struct {
					p []PE
					n string
					t types.Type
				}{q, strings.ToLower(s.Field(i).Name()), ft})
				continue
			}
			d.anyPaths = append(d.anyPaths, q)
		}
	}
	walk(d.named, nil)
	if len(ptrs) == 0 || len(ptrs) > 2 {
		panic(undecided{"structure of SkipListMap is not recognised"})
	}
	d.head = ptrs[0].p
	if len(ptrs) == 2 {
		d.tail = ptrs[1].p
		for _, w := range []string{"tail", "end", "last", "nil"} {
			if strings.Contains(ptrs[0].n, w) {
				d.head, d.tail = ptrs[1].p, ptrs[0].p
			}
		}
	}
	for _, q := range ints {
		for _, w := range []string{"len", "size", "count", "num"} {
			if strings.Contains(q.n, w) && d.leng == nil {
				d.leng = q.p
			}
		}
		d.intPaths = append(d.intPaths, q.p)
	}
	if d.leng == nil {
		panic(undecided{"no length field in SkipListMap"})
	}
	ns := structOf(d.node)
	nt := typeArgs(d.node.Origin())
	_ = nt
	for i := 0; i < ns.NumFields(); i++ {
		ft := types.Unalias(ns.Field(i).Type())
		switch {
		case isInt(ft):
			d.fH = i
		default:
			if a, ok := under(ft).(*types.Array); ok && isPtrTo(a.Elem(), func(t types.Type) bool {
				n, ok := types.Unalias(t).(*types.Named)
				return ok && n.Origin() == d.node.Origin()
			}) {
				d.fNext, d.levels = i, a.Len()
				continue
			}
			n := strings.ToLower(ns.Field(i).Name())
			if d.fKey < 0 && strings.HasPrefix(n, "k") || d.fVal >= 0 {
				d.fKey = i
			} else {
				d.fVal = i
			}
		}
	}
	if d.fKey < 0 || d.fVal < 0 || d.fNext < 0 || d.levels > 40 {
		panic(undecided{"node structure of SkipListMap is not recognised"})
	}
	d.itNode, d.itLs = -1, -1
	is := structOf(d.iter)
	for i := 0; i < is.NumFields(); i++ {
		if pt, ok := types.Unalias(is.Field(i).Type()).(*types.Pointer); ok {
			if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && n.Origin() == d.node.Origin() {
				d.itNode = i
			} else if ok && n.Origin() == d.named.Origin() {
				d.itLs = i
			}
		}
	}
	return d
}

// sklSt is one symbolic skip list in a case.
type sklSt struct {
	*skl
	x      *Exec
	obj    int
	kb, vb *Base
	n, p   Lin
	found  bool
	keyed  bool
	key    Val
	dl, el []Lin // p-pred(l), succ(l)-(p+1)
	ul     []Lin // link of p+1 at level l, less p+2
	h      Lin   // levels of the sought node
}

func (d *sklSt) ptr(st *State, rank, lv Lin) Val {
	if d.tail == nil && d.x.decideEQ(st, rank.Sub(d.n).AddI(-1)) {
		return VNil{}
	}
	return VPtr{d.obj, []PE{{Idx: &rank}, {Idx: &lv, W: true}}}
}

func (d *sklSt) pred(l int64) Lin { return d.p.Sub(d.dl[l]) }
func (d *sklSt) succ(l int64) Lin { return d.p.AddI(1).Add(d.el[l]) }

// Ranks are kept in a form that shows on which side of the sought position
// they lie (p-t or p+1+t with t>=0), so that few constraints are needed.

// level relates the link over the sought position to the levels of the node
// there, where the code cannot ask the node for its levels.
func (d *sklSt) level(st *State, l int64) {
	if d.fH < 0 {
		d.settle(st, l)
	}
}

func (d *sklSt) settle(st *State, l int64) {
	x := d.x
	if !d.found || l == 0 {
		return
	}
	in := Con{L: d.h.AddI(-l - 1)}
	out := Con{L: d.h.Neg().AddI(l)}
	at := Con{L: d.el[l], Eq: true}
	past := Con{L: d.el[l].AddI(-1)}
	if !(x.known(st, in) && x.known(st, at)) && !(x.known(st, out) && x.known(st, past)) {
		panic(needSplit{[]alt{{cons: []Con{in, at}}, {cons: []Con{out, past}}}})
	}
}

// link is the rank that the link of rank r at level l leads to; r has a link
// at that level.
func (d *sklSt) link(st *State, r Lin, l int64) Lin {
	x := d.x
	if l == 0 {
		return r.AddI(1)
	}
	more := func() Lin {
		return S(x.ST.Intern(fmt.Sprintf("link%d:%s", l, r.Key()), fmt.Sprintf("link%d(%s)", l, x.l(r)), big0, maxLen))
	}
	if !d.keyed {
		return r.AddI(1).Add(more())
	}
	if !x.decideGE(st, d.p.Sub(r)) {
		if d.found && x.eqLin(st, r, d.p.AddI(1)) {
			return r.AddI(1).Add(d.ul[l])
		}
		return r.AddI(1).Add(more())
	}
	d.level(st, l)
	at := Con{L: r.Sub(d.pred(l)), Eq: true}
	if x.known(st, at) {
		return d.succ(l)
	}
	before := GE(d.pred(l), r.AddI(1))
	if x.known(st, before) {
		return d.p.Sub(more())
	}
	// a rank <= p that has this level is pred(l) or lies before it
	panic(needSplit{[]alt{{cons: []Con{at}}, {cons: []Con{before}}}})
}

// where splits a path into rank, witness and rest, if it is a node's.
func (d *sklSt) where(p Val) (r, lv Lin, rest []PE, ok bool) {
	q, is := p.(VPtr)
	if !is || q.Obj != d.obj || len(q.Path) < 2 {
		return
	}
	return *q.Path[0].Idx, *q.Path[1].Idx, q.Path[2:], true
}

// cell names a memory cell of a node: level of a link, or -1 for the value.
func (d *sklSt) cell(st *State, rest []PE) (int64, bool) {
	if len(rest) == 1 && rest[0].Idx == nil && rest[0].F == d.fVal {
		return -1, true
	}
	if len(rest) == 2 && rest[0].Idx == nil && rest[0].F == d.fNext && rest[1].Idx != nil {
		l := *rest[1].Idx
		if !l.isConst() {
			for k := int64(0); k < d.levels; k++ {
				if d.x.decideEQ(st, l.AddI(-k)) {
					return k, true
				}
			}
			d.x.fail("link level %s", d.x.l(l))
		}
		return l.K.Int64(), true
	}
	return 0, false
}

// isHead: links never lead to the head, and pointers from links carry a
// witness of at most the number of levels.
func (d *sklSt) isHead(st *State, r, lv Lin) bool {
	if d.x.known(st, GE(K(d.levels), lv)) {
		return false
	}
	return d.x.decideEQ(st, r)
}

// has reports that rank r certainly has a link at level l.
func (d *sklSt) has(st *State, r, lv Lin, l int64) bool {
	if d.x.known(st, Con{L: lv.AddI(-l - 1)}) || d.x.eqLin(st, r, K(0)) {
		return true
	}
	return d.found && d.x.eqLin(st, r, d.p.AddI(1)) && d.x.known(st, Con{L: d.h.AddI(-l - 1)})
}

func (d *sklSt) orig(st *State, r, lv Lin, c int64) Val {
	x := d.x
	if c < 0 {
		if d.isHead(st, r, lv) || x.decideEQ(st, r.Sub(d.n).AddI(-1)) {
			return x.fresh("value of an end node", d.V)
		}
		return x.elem(d.vb, r.AddI(-1))
	}
	if x.decideEQ(st, r.Sub(d.n).AddI(-1)) {
		return VNil{}
	}
	if !d.has(st, r, lv, c) {
		return x.fresh("stale link", types.NewPointer(d.node))
	}
	return d.ptr(st, d.link(st, r, c), K(c+1))
}

func (d *sklSt) read(st *State, r, lv Lin, c int64) Val {
	log, _ := st.ghost["skl"].(VTuple)
	for i := len(log.F) - 1; i >= 0; i-- {
		e := log.F[i].(VTuple).F
		if d.x.num(e[1]).Eq(K(c)) && d.x.decideEQ(st, d.x.num(e[0]).Sub(r)) {
			return e[2]
		}
	}
	return d.orig(st, r, lv, c)
}

// newSklSt makes the state of one list. how: "", "found" or "missing".
func (c *Case) newSklSt(d *skl, st *State, how string) (*sklSt, VPtr) {
	x := c.X
	s := &sklSt{skl: d, x: x, kb: x.base("key", d.K), vb: x.base("value", d.V)}
	s.kb.Dist = true
	s.n = x.lenSym("n")
	s.h = x.symRange("levels", big1, K(d.levels).K)
	if how != "" {
		s.keyed = true
		s.found = how == "found"
		s.p = x.lenSym("p")
		q := x.lenSym("q")
		s.n = s.p.Add(q)
		if s.found {
			s.n = s.n.AddI(1)
			s.key = VElem{s.kb, s.p}
		} else {
			s.key = x.tok("k", d.K)
		}
		for l := int64(0); l < d.levels; l++ {
			if l == 0 {
				s.dl, s.el, s.ul = append(s.dl, K(0)), append(s.el, K(0)), append(s.ul, K(0))
				continue
			}
			s.dl = append(s.dl, x.lenSym(fmt.Sprintf("d%d", l)))
			s.el = append(s.el, x.weakSym(fmt.Sprintf("e%d", l)))
			s.ul = append(s.ul, x.weakSym(fmt.Sprintf("u%d", l)))
		}
	}
	s.obj = x.newObj(st, &Obj{Kind: OMem, T: d.node, V: VTop{}, Heap: "nodes"})
	m := VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: d.named, V: x.zero(d.named)})}
	set := func(path []PE, v Val) {
		o := *st.objs[m.Obj]
		o.V = x.setPath(st, o.V, path, v, o.T)
		st.objs[m.Obj] = &o
	}
	for _, ip := range append(append([][]PE{}, d.intPaths...), d.anyPaths...) {
		t := types.Type(d.named)
		for _, e := range ip {
			t = fieldType(t, e.F)
		}
		set(ip, x.anything("seed", t))
	}
	set(d.head, s.ptr(st, K(0), K(d.levels+1)))
	if d.tail != nil {
		set(d.tail, s.ptr(st, s.n.AddI(1), K(0)))
	}
	set(d.leng, VNum{s.n})
	st.ghost["skl"] = VTuple{}
	st.ghost["map"] = m
	x.H.Peel, x.H.Coarse = d.levels, true
	x.H.Loaded = func(st *State, p Val, t types.Type) (Val, bool) {
		r, lv, rest, ok := s.where(p)
		if !ok {
			return nil, false
		}
		if len(rest) == 1 && rest[0].Idx == nil {
			switch rest[0].F {
			case d.fKey:
				if s.isHead(st, r, lv) || x.decideEQ(st, r.Sub(s.n).AddI(-1)) {
					return x.fresh("key of an end node", d.K), true
				}
				return x.elem(s.kb, r.AddI(-1)), true
			case d.fH:
				if s.found && x.decideEQ(st, r.Sub(s.p).AddI(-1)) {
					for k := int64(1); k < d.levels; k++ {
						if x.decideEQ(st, s.h.AddI(-k)) {
							return VNum{K(k)}, true
						}
					}
					return VNum{s.h}, true
				}
				return x.fresh("height", t), true
			}
		}
		cl, ok := s.cell(st, rest)
		if !ok {
			if len(rest) == 1 && rest[0].Idx == nil && rest[0].F == d.fNext {
				return x.fresh("links", t), true
			}
			x.fail("access to a whole skip list node")
		}
		return s.read(st, r, lv, cl), true
	}
	x.H.Stored = func(st *State, p Val, v Val) bool {
		r, _, rest, ok := s.where(p)
		if !ok {
			return false
		}
		cl, ok := s.cell(st, rest)
		if !ok {
			x.fail("key or height of a linked node overwritten")
		}
		log := st.ghost["skl"].(VTuple)
		st.ghost["skl"] = VTuple{append(log.F[:len(log.F):len(log.F)], VTuple{[]Val{VNum{r}, VNum{K(cl)}, v}})}
		return true
	}
	x.H.Equal = func(st *State, a, b VPtr) {
		ra, _, _, ok := s.where(a)
		rb, _, _, ok2 := s.where(b)
		if !ok || !ok2 || !s.found {
			return
		}
		df := ra.Sub(rb)
		for l := range s.el {
			e := s.el[l]
			if l == 0 || df.coef(e.T[0].S).Sign() == 0 {
				continue
			}
			if x.eqLin(st, df, e) || x.eqLin(st, df, e.Neg()) {
				s.settle(st, int64(l))
			}
		}
	}
	x.H.Part = func(st *State) string {
		if !s.keyed {
			return ""
		}
		var b strings.Builder
		for i, v := range st.top().env {
			if r, _, rest, ok := s.where(v); ok && len(rest) == 0 {
				switch {
				case x.known(st, GE(s.p, r)):
					fmt.Fprintf(&b, ";%d-", i)
				case x.known(st, GE(r, s.p.AddI(1))):
					fmt.Fprintf(&b, ";%d+", i)
				}
			}
		}
		return b.String()
	}
	x.H.Order = func(st *State, a, b Val) (Lin, bool) {
		pos := func(v Val) (Lin, bool) {
			if e, ok := v.(VElem); ok && e.B == s.kb {
				return e.Idx.MulI(2).AddI(1), true
			}
			if s.keyed && x.key(v) == x.key(s.key) {
				return s.p.MulI(2), true // not present, else it were an element
			}
			return Lin{}, false
		}
		pa, oka := pos(a)
		pb, okb := pos(b)
		if !oka || !okb {
			return Lin{}, false
		}
		return pa.Sub(pb), true
	}
	return s, m
}

// upd is an expected change of a cell.
type upd struct {
	r Lin
	c int64
	v Val
}

// same checks that the fields of the map header are as expected and that the
// cells changed are exactly those of want.
func (s *sklSt) after(st *State, m VPtr, n Lin, want []upd) string {
	x := s.x
	hdr := func(path []PE) Val {
		o := st.objs[m.Obj]
		return x.getPath(st, o.V, append(m.Path[:len(m.Path):len(m.Path)], path...), o.T)
	}
	if w := x.numIs(st, "length after the call", hdr(s.leng), n); w != "" {
		return w
	}
	at := func(v Val, r Lin) bool {
		q, _, rest, ok := s.where(v)
		return ok && len(rest) == 0 && x.decideEQ(st, q.Sub(r))
	}
	if !at(hdr(s.head), K(0)) {
		return "the list has another head after the call"
	}
	if s.tail != nil && !at(hdr(s.tail), s.n.AddI(1)) {
		return "the list has another end after the call"
	}
	log := st.ghost["skl"].(VTuple).F
	used := make([]bool, len(want))
	for i := len(log) - 1; i >= 0; i-- {
		e := log[i].(VTuple).F
		r, c := x.num(e[0]), x.num(e[1]).K.Int64()
		over := false
		for j := i + 1; j < len(log) && !over; j++ {
			f := log[j].(VTuple).F
			over = x.num(f[1]).Eq(K(c)) && x.decideEQ(st, x.num(f[0]).Sub(r))
		}
		if over {
			continue
		}
		hit := false
		for k, w := range want {
			if w.c == c && !used[k] && x.decideEQ(st, w.r.Sub(r)) {
				used[k], hit = true, true
				if !x.valEq(st, e[2], w.v) {
					return fmt.Sprintf("%s becomes %s, expected %s", s.cellName(r, c), x.show(e[2]), x.show(w.v))
				}
			}
		}
		if !hit && !x.valEq(st, e[2], s.orig(st, r, K(0), c)) {
			return fmt.Sprintf("%s is changed to %s", s.cellName(r, c), x.show(e[2]))
		}
	}
	for k, w := range want {
		if !used[k] {
			return fmt.Sprintf("%s is not set to %s", s.cellName(w.r, w.c), x.show(w.v))
		}
	}
	return ""
}

func (s *sklSt) cellName(r Lin, c int64) string {
	if c < 0 {
		return "the value of node " + s.x.l(r)
	}
	return fmt.Sprintf("the level-%d link of node %s", c, s.x.l(r))
}

// inserted checks the effect of inserting a missing key.
func (s *sklSt) inserted(st *State, m VPtr, val Val) string {
	x := s.x
	log := st.ghost["skl"].(VTuple).F
	var node Val
	h := int64(0)
	seen := map[int64]bool{}
	for _, e := range log {
		f := e.(VTuple).F
		if p, ok := f[2].(VPtr); ok && p.Obj != s.obj {
			if node != nil && !x.valEq(st, node, p) {
				return "several new nodes are linked"
			}
			node = p
			seen[x.num(f[1]).K.Int64()] = true
		}
	}
	for seen[h] {
		h++
	}
	if node == nil || h == 0 || len(seen) != int(h) {
		return "the new entry is not linked at its lowest levels"
	}
	np := node.(VPtr)
	var want []upd
	for l := int64(0); l < h; l++ {
		s.level(st, l)
		want = append(want, upd{s.pred(l), l, node})
	}
	if w := s.after(st, m, s.n.AddI(1), want); w != "" {
		return w
	}
	f := func(i int) Val { return x.getF(st, np, i) }
	if s.fH >= 0 {
		if w := x.numIs(st, "recorded height of the new node", f(s.fH), K(h)); w != "" {
			return w
		}
	}
	if w := first(x.valIs(st, "key of the new node", f(s.fKey), s.key), x.valIs(st, "value of the new node", f(s.fVal), val)); w != "" {
		return w
	}
	for l := int64(0); l < h; l++ {
		idx := K(l)
		o := st.objs[np.Obj]
		got := x.getPath(st, o.V, append(np.Path[:len(np.Path):len(np.Path)], PE{F: s.fNext}, PE{Idx: &idx}), o.T)
		if w := x.valIs(st, fmt.Sprintf("level-%d link of the new node", l), got, s.ptr(st, s.succ(l), K(l+1))); w != "" {
			return w
		}
	}
	return ""
}

// removed checks the effect of deleting the key at rank p+1.
func (s *sklSt) removed(st *State, m VPtr) string {
	var want []upd
	for l := int64(0); l < s.levels; l++ {
		s.settle(st, l)
		if !s.x.decideGE(st, s.h.AddI(-l-1)) {
			break
		}
		want = append(want, upd{s.pred(l), l, s.ptr(st, s.link(st, s.p.AddI(1), l), K(l+1))})
	}
	return s.after(st, m, s.n.AddI(-1), want)
}

// emptied checks that the list at m has no entries: it is a new list, or its
// old head leads to its old end at every level.
func (s *sklSt) emptied(st *State, m VPtr) string {
	x := s.x
	hdr := func(path []PE) Val {
		o := st.objs[m.Obj]
		return x.getPath(st, o.V, append(m.Path[:len(m.Path):len(m.Path)], path...), o.T)
	}
	r, lv, rest, ok := s.where(hdr(s.head))
	if !ok || len(rest) != 0 || !x.decideEQ(st, r) {
		return s.emptyList(x, st, m)
	}
	if w := x.numIs(st, "length", hdr(s.leng), K(0)); w != "" {
		return w
	}
	var end Val = VNil{}
	if s.tail != nil {
		end = hdr(s.tail)
		if q, _, rest, ok := s.where(end); !ok || len(rest) != 0 || !x.decideEQ(st, q.Sub(s.n).AddI(-1)) {
			return "the list has another end after the call"
		}
	}
	for l := int64(0); l < s.levels; l++ {
		if w := x.valIs(st, fmt.Sprintf("level-%d link of the head of an empty list", l), s.read(st, r, lv, l), end); w != "" {
			return w
		}
	}
	return ""
}

// emptyList checks that the header at p is that of a list without entries.
func (d *skl) emptyList(x *Exec, st *State, p VPtr) string {
	hdr := func(path []PE) Val {
		o := st.objs[p.Obj]
		return x.getPath(st, o.V, append(p.Path[:len(p.Path):len(p.Path)], path...), o.T)
	}
	if w := x.numIs(st, "length", hdr(d.leng), K(0)); w != "" {
		return w
	}
	h, ok := hdr(d.head).(VPtr)
	if !ok || st.objs[h.Obj] == nil || !st.objs[h.Obj].Fresh {
		return "the empty list has no head of its own"
	}
	var end Val = VNil{}
	if d.tail != nil {
		e, ok := hdr(d.tail).(VPtr)
		if !ok || e.Obj == h.Obj || !st.objs[e.Obj].Fresh {
			return "the empty list has no end of its own"
		}
		end = e
	}
	for l := int64(0); l < d.levels; l++ {
		idx := K(l)
		o := st.objs[h.Obj]
		got := x.getPath(st, o.V, append(h.Path[:len(h.Path):len(h.Path)], PE{F: d.fNext}, PE{Idx: &idx}), o.T)
		if w := x.valIs(st, fmt.Sprintf("level-%d link of the head of an empty list", l), got, end); w != "" {
			return w
		}
	}
	return ""
}

// listOf runs a no-argument method on a list with any content.
func (d *skl) each(meth string, cases []string, f func(c *Case, s *sklSt, m VPtr, st *State, fn func(args ...Val) []Ret)) {
	for _, how := range cases {
		how := how
		name := meth
		if how != "" {
			name += ", key " + how
		}
		d.r.Obl(sklPkg+" SkipListMap."+name, func(c *Case) {
			st := NewState()
			s, m := c.newSklSt(d, st, how)
			f(c, s, m, st, func(args ...Val) []Ret {
				fn := d.r.P.Fn(sklPkg, "SkipListMap."+meth)
				return c.Call(st, fn, tmFor(fn, []types.Type{d.K, d.V}), append([]Val{m}, args...)...)
			})
		})
	}
}

func noPan(f func(s *State, q Ret) string) func(s *State, q Ret) string {
	return func(s *State, q Ret) string {
		if q.pan != nil {
			return panMsg(q.pan)
		}
		return f(s, q)
	}
}

func runSkl(r *Run) {
	d := newSkl(r)
	tm := []types.Type{d.K, d.V}
	r.Obl(sklPkg+" New", func(c *Case) {
		fn := r.P.Fn(sklPkg, "New")
		c.Each(c.Call(NewState(), fn, tmFor(fn, tm)), noPan(func(s *State, q Ret) string {
			p, ok := q.vals[0].(VPtr)
			if !ok {
				return "New returns " + c.X.show(q.vals[0])
			}
			return d.emptyList(c.X, s, p)
		}))
	})
	both := []string{"found", "missing"}
	d.each("Set", both, func(c *Case, s *sklSt, m VPtr, st *State, call func(...Val) []Ret) {
		v := c.X.tok("v", d.V)
		c.Each(call(s.key, v), noPan(func(st *State, q Ret) string {
			if s.found {
				return s.after(st, m, s.n, []upd{{s.p.AddI(1), -1, v}})
			}
			return s.inserted(st, m, v)
		}))
	})
	d.each("Del", both, func(c *Case, s *sklSt, m VPtr, st *State, call func(...Val) []Ret) {
		c.Each(call(s.key), noPan(func(st *State, q Ret) string {
			if w := c.X.boolIs(st, "result", q.vals[0], s.found); w != "" {
				return w
			}
			if s.found {
				return s.removed(st, m)
			}
			return s.after(st, m, s.n, nil)
		}))
	})
	d.each("Get", both, func(c *Case, s *sklSt, m VPtr, st *State, call func(...Val) []Ret) {
		c.Each(call(s.key), noPan(func(st *State, q Ret) string {
			want := c.X.zero(d.V)
			if s.found {
				want = c.X.elem(s.vb, s.p)
			}
			return first(c.X.boolIs(st, "presence", q.vals[1], s.found), c.X.valIs(st, "value", q.vals[0], want), s.after(st, m, s.n, nil))
		}))
	})
	any := []string{""}
	d.each("Len", any, func(c *Case, s *sklSt, m VPtr, st *State, call func(...Val) []Ret) {
		c.Each(call(), noPan(func(st *State, q Ret) string {
			return first(c.X.numIs(st, "Len", q.vals[0], s.n), s.after(st, m, s.n, nil))
		}))
	})
	for _, k := range []string{"Keys", "Values"} {
		k := k
		d.each(k, any, func(c *Case, s *sklSt, m VPtr, st *State, call func(...Val) []Ret) {
			b := s.kb
			if k == "Values" {
				b = s.vb
			}
			c.Each(call(), noPan(func(st *State, q Ret) string {
				got, _ := c.X.content(st, q.vals[0])
				return first(c.X.seqIs(st, "result", got, whole(b, s.n)), s.after(st, m, s.n, nil))
			}))
		})
	}
	d.each("ToMap", any, func(c *Case, s *sklSt, m VPtr, st *State, call func(...Val) []Ret) {
		x := c.X
		x.H.MapSet = func(st *State, m, k, v Val) bool {
			p, ok := m.(VPtr)
			if !ok || !st.objs[p.Obj].Fresh {
				return false
			}
			x.event(st, VTerm{Fn: "mapset", Args: []Val{m, k, v}})
			return true
		}
		c.Each(call(), noPan(func(st *State, q Ret) string {
			p, ok := q.vals[0].(VPtr)
			if !ok || !st.objs[p.Obj].Fresh {
				return "the result is not a new map"
			}
			ev := VTerm{Fn: "mapset", Args: []Val{p, VElem{s.kb, S(0)}, VElem{s.vb, S(0)}}}
			return first(x.seqIs(st, "entries stored in the map", st.trace, Seq{{Kind: PEv, V: VTuple{[]Val{ev}}, From: K(0), To: s.n}}), s.after(st, m, s.n, nil))
		}))
	})
	d.each("Clear", any, func(c *Case, s *sklSt, m VPtr, st *State, call func(...Val) []Ret) {
		c.Each(call(), noPan(func(st *State, q Ret) string {
			return s.emptied(st, m)
		}))
	})
	// the iterator: nil stands for the start
	iterSt := func(c *Case, how string, pos string) (*State, *sklSt, VPtr, VPtr, Lin) {
		x := c.X
		st := NewState()
		s, m := c.newSklSt(d, st, how)
		if d.itNode < 0 || d.itLs < 0 {
			x.fail("structure of Iterator is not recognised")
		}
		it := VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: d.iter, V: x.zero(d.iter)})}
		x.setF(st, it, d.itLs, m)
		var at Lin
		switch pos {
		case "at the start", "at the head":
			at = K(0)
		case "at an entry":
			at = x.lenSym("at")
			st.cons = append(st.cons, GE(at, K(1)), LE(at, s.n))
		case "at the end":
			at = s.n.AddI(1)
		default:
			at = x.lenSym("at")
		}
		// what an earlier search left in the iterator may be out of date
		c.setExtra(st, it, d.iter, &at, d.itNode, d.itLs)
		if pos == "at a removed entry" {
			x.setF(st, it, d.itNode, x.fresh("removed entry", types.NewPointer(d.node)))
		} else if pos != "at the start" {
			if v := s.ptr(st, at, K(1)); true {
				x.setF(st, it, d.itNode, v)
			}
		}
		return st, s, m, it, at
	}
	pos := []string{"at the start", "at an entry", "at the end"}
	standsAt := func(s *sklSt, st *State, it VPtr, at Lin) string {
		q, _, rest, ok := s.where(s.x.getF(st, it, d.itNode))
		if !ok || len(rest) != 0 || !s.x.decideEQ(st, q.Sub(at)) {
			return "the iterator stands at " + s.x.show(s.x.getF(st, it, d.itNode)) + ", expected entry " + s.x.l(at)
		}
		return ""
	}
	itOK := func(c *Case, s *sklSt, st *State, it VPtr) string {
		at := K(0)
		v := c.X.getF(st, it, d.itNode)
		if q, _, rest, ok := s.where(v); ok && len(rest) == 0 {
			at = q
		} else if !c.X.isNil(st, v) {
			return "the iterator stands at " + c.X.show(v)
		}
		return c.okExtra(st, it, d.iter, &at, d.itNode, d.itLs)
	}
	// an iterator not begun has no entry or stands at the head
	headUsed := false
	begun := func(c *Case, s *sklSt, st *State, it VPtr) string {
		v := c.X.getF(st, it, d.itNode)
		if q, _, rest, ok := s.where(v); ok && len(rest) == 0 && c.X.decideEQ(st, q) {
			headUsed = true
			return ""
		}
		return c.X.valIs(st, "node of an iterator not begun", v, VNil{})
	}
	r.Obl(sklPkg+" SkipListMap.Iterator", func(c *Case) {
		st := NewState()
		s, m := c.newSklSt(d, st, "")
		fn := r.P.Fn(sklPkg, "SkipListMap.Iterator")
		c.Each(c.Call(st, fn, tmFor(fn, tm), m), noPan(func(st *State, q Ret) string {
			p, ok := q.vals[0].(VPtr)
			if !ok {
				return "no iterator is returned"
			}
			return first(c.X.valIs(st, "list of the iterator", c.X.getF(st, p, d.itLs), m), begun(c, s, st, p), itOK(c, s, st, p))
		}))
	})
	for _, ps := range append(pos, "at a removed entry") {
		ps := ps
		r.Obl(sklPkg+" Iterator.Rewind, "+ps, func(c *Case) {
			st, s, m, it, _ := iterSt(c, "", ps)
			fn := r.P.Fn(sklPkg, "Iterator.Rewind")
			c.Each(c.Call(st, fn, tmFor(fn, tm), it), noPan(func(st *State, q Ret) string {
				return first(begun(c, s, st, it), s.after(st, m, s.n, nil), itOK(c, s, st, it))
			}))
		})
	}
	if headUsed {
		pos = append(pos, "at the head")
	}
	for _, ps := range append(pos, "at a removed entry") {
		ps := ps
		if ps != "at a removed entry" {
			r.Obl(sklPkg+" Iterator.Next, "+ps, func(c *Case) {
				st, s, m, it, at := iterSt(c, "", ps)
				x := c.X
				fn := r.P.Fn(sklPkg, "Iterator.Next")
				c.Each(c.Call(st, fn, tmFor(fn, tm), it), noPan(func(st *State, q Ret) string {
					if ps == "at the end" || x.decideEQ(st, at.Sub(s.n)) {
						return first(x.boolIs(st, "result", q.vals[2], false), x.valIs(st, "key at the end", q.vals[0], x.zero(d.K)),
							x.valIs(st, "value at the end", q.vals[1], x.zero(d.V)), standsAt(s, st, it, s.n.AddI(1)), s.after(st, m, s.n, nil), itOK(c, s, st, it))
					}
					return first(x.boolIs(st, "result", q.vals[2], true), x.valIs(st, "key", q.vals[0], x.elem(s.kb, at)),
						x.valIs(st, "value", q.vals[1], x.elem(s.vb, at)), standsAt(s, st, it, at.AddI(1)), s.after(st, m, s.n, nil), itOK(c, s, st, it))
				}))
			})
		}
		for _, how := range both {
			how := how
			r.Obl(sklPkg+" Iterator.Seek, "+ps+", key "+how, func(c *Case) {
				st, s, m, it, _ := iterSt(c, how, ps)
				x := c.X
				fn := r.P.Fn(sklPkg, "Iterator.Seek")
				c.Each(c.Call(st, fn, tmFor(fn, tm), it, s.key), noPan(func(st *State, q Ret) string {
					if !s.found {
						return first(x.boolIs(st, "result", q.vals[2], false), x.valIs(st, "key of nothing", q.vals[0], x.zero(d.K)),
							x.valIs(st, "value of nothing", q.vals[1], x.zero(d.V)), s.after(st, m, s.n, nil), itOK(c, s, st, it))
					}
					return first(x.boolIs(st, "result", q.vals[2], true), x.valIs(st, "key", q.vals[0], s.key),
						x.valIs(st, "value", q.vals[1], x.elem(s.vb, s.p)), standsAt(s, st, it, s.p.AddI(1)), s.after(st, m, s.n, nil), itOK(c, s, st, it))
				}))
			})
		}
	}
}

func init() {
	register(&Prop{ID: "C08", Title: "skip list map", Pkgs: []string{sklPkg}, Min: 24,
		Rule: "abstract interpretation of every method of the skip list over every sorted content, every tower height of every node and every sought key (present and absent): results, and exactly the links, values and length the method changes, compared with the sorted-map specification on every outcome",
		Run:  runSkl})
}
