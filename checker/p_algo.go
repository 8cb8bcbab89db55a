package main

import (
	"go/types"
	"strings"
)

// Sorting and searching: the library's algorithms are trusted, what is
// checked is what they are given (the slice, the order, the stability) and
// what is done with what they return. An order is found by interpreting the
// comparison function on two arbitrary elements.

type sorter struct {
	c *Case
	x *Exec
	m *sortMode
}

// sortMode is what is assumed of the slice tested or searched. Tests: the slice
// is in order, or there are two neighbours at place p which are not. Searches:
// exactly the elements before place p are smaller than the target, and has
// tells whether an equal one is there. Either way the results of the
// comparisons follow, whoever makes them.
type sortMode struct {
	search, ok, has bool
	p, n            Lin
	b               *Base
	order           string // asc, desc, custom:f
	f, target       Val
}

// less is the result of comparing s[k] with s[k-1] (tests) or with the target
// (searches): a number with the sign, and whether anything is known.
func (z *sorter) signOf(st *State, a, b Val) (Lin, bool) {
	x, m := z.x, z.m
	e, ok := a.(VElem)
	if !ok || e.B != m.b {
		return Lin{}, false
	}
	key := "sign:" + x.key(VTuple{[]Val{a, b}})
	if m.search {
		if x.key(b) != x.key(m.target) {
			return Lin{}, false
		}
		switch {
		case x.decideGE(st, m.p.Sub(e.Idx).AddI(-1)):
			return K(-1), true
		case x.decideEQ(st, e.Idx.Sub(m.p)) && m.has:
			return K(0), true
		case !m.has || x.decideEQ(st, e.Idx.Sub(m.p)):
			return K(1), true
		}
		return S(x.ST.Intern(key, "cmp", big0, big1)), true
	}
	g, ok := b.(VElem)
	if !ok || g.B != m.b || !x.decideEQ(st, e.Idx.Sub(g.Idx).AddI(-1)) {
		return Lin{}, false
	}
	if m.ok {
		return S(x.ST.Intern(key, "cmp", big0, big1)), true
	}
	if x.decideEQ(st, e.Idx.Sub(m.p)) {
		return K(-1), true
	}
	return Lin{}, false
}

// useMode lets comparisons follow the mode.
func (z *sorter) useMode() {
	x := z.x
	x.H.Order = func(st *State, a, b Val) (Lin, bool) {
		m := z.m
		if m == nil || m.order != "asc" && m.order != "desc" {
			return Lin{}, false
		}
		d := int64(1)
		if m.order == "desc" {
			d = -1
		}
		if l, ok := z.signOf(st, a, b); ok {
			return l.MulI(d), true
		}
		if l, ok := z.signOf(st, b, a); ok {
			return l.MulI(-d), true
		}
		return Lin{}, false
	}
}

// called is a call of the caller's comparison function.
func (z *sorter) called(st *State, args []Val, sig *types.Signature) ([]Ret, bool) {
	x, m := z.x, z.m
	if m == nil || m.f == nil || len(args) != 3 || x.key(args[0]) != x.key(m.f) || sig.Results().Len() != 1 {
		return nil, false
	}
	return x.fork(st, func(st *State) []Ret {
		l, ok := z.signOf(st, args[1], args[2])
		if isBool(sig.Results().At(0).Type()) {
			switch {
			case !ok:
				t := st.clone()
				return append(ret(st, bconst(true)), Ret{st: t, vals: []Val{bconst(false)}})
			}
			return ret(st, bconst(!x.decideGE(st, l)))
		}
		if !ok {
			return ret(st, VNum{x.intSym("cmp", sig.Results().At(0).Type())})
		}
		// any number with the sign
		n := x.intSym("cmp", sig.Results().At(0).Type())
		switch {
		case x.decideEQ(st, l):
			return ret(st, VNum{K(0)})
		case x.decideGE(st, l):
			st.cons = append(st.cons, GE(n, K(1)))
		default:
			st.cons = append(st.cons, LE(n, K(-1)))
		}
		return ret(st, VNum{n})
	}), true
}

func newSorter(c *Case) *sorter {
	z := &sorter{c: c, x: c.X}
	c.X.H.Call = z.call
	return z
}

func stripInst(name string) string {
	if i := strings.Index(name, "["); i >= 0 && strings.HasSuffix(name, "]") {
		return name[:i]
	}
	return name
}

// array replaces the first n elements of v by fresh ones.
func (x *Exec) retell(st *State, v VSlice, b *Base) {
	o := *st.objs[v.Obj]
	arr := x.getPath(st, o.V, v.Path, o.T).(VArr)
	arr.C = x.seqPut(st, arr.C, v.Off, seg(b, K(0), v.Len), v.Len)
	o.V = x.setPath(st, o.V, v.Path, arr, o.T)
	st.objs[v.Obj] = &o
}

func (x *Exec) at(st *State, v VSlice, i Lin, et types.Type) Val {
	idx := v.Off.Add(i)
	return x.load(st, VPtr{v.Obj, append(v.Path[:len(v.Path):len(v.Path)], PE{Idx: &idx})}, et)
}

// comparison is one interpreted call of a comparison function: its
// arguments, its result, and the call of the caller's function it made.
type comparison struct {
	st    *State
	a, b  Val
	res   Val
	inner *VTerm // fn, args..., result
	calls int
}

// orderOf names the order a comparison function implements: "asc", "desc",
// or "custom:f"; it fails if it is none of them.
func (z *sorter) orderOf(st *State, what string, run func(st *State) []comparison) string {
	x := z.x
	saved, savedOrder := x.H.Call, x.H.Order
	x.H.Order = nil
	x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
		if !strings.HasPrefix(name, "call:") || len(args) != 3 {
			return saved(st, name, args, sig)
		}
		var out []Ret
		add := func(s *State, r Val) {
			k := "inner"
			n := 0
			if v, ok := s.ghost["inners"]; ok {
				c, _ := x.num(v).constInt()
				n = int(c)
			}
			s.ghost["inners"] = VNum{K(int64(n + 1))}
			s.ghost[k] = VTuple{append(append([]Val{}, args...), r)}
			out = append(out, Ret{st: s, vals: []Val{r}})
		}
		if isBool(sig.Results().At(0).Type()) {
			t := st.clone()
			add(st, bconst(true))
			add(t, bconst(false))
		} else {
			add(st, VNum{x.intSym("cmp", sig.Results().At(0).Type())})
		}
		return out, true
	}
	defer func() { x.H.Call, x.H.Order = saved, savedOrder }()
	cs := run(st)
	if len(cs) == 0 {
		x.fail("%s: the comparison function does not return", what)
	}
	var custom Val
	fits := map[string]bool{"asc": true, "desc": true, "custom": true}
	for _, c := range cs {
		in, ok := c.st.ghost["inner"].(VTuple)
		if ok && custom == nil {
			custom = in.F[0]
		}
		x.fork(c.st, func(s *State) []Ret {
			sign := func(v Val) int {
				if b, ok := v.(VBool); ok {
					if x.decide(s, b.B) {
						return -1
					}
					return 0
				}
				n := x.num(v)
				if x.decideEQ(s, n) {
					return 0
				} else if x.decideGE(s, n) {
					return 1
				}
				return -1
			}
			r := sign(c.res)
			if ok {
				n, _ := x.num(c.st.ghost["inners"]).constInt()
				if n != 1 || x.key(in.F[0]) != x.key(custom) || !x.valEq(s, in.F[1], c.a) || !x.valEq(s, in.F[2], c.b) || sign(in.F[3]) != r {
					fits["custom"] = false
				}
				fits["asc"], fits["desc"] = false, false
				return nil
			}
			fits["custom"] = false
			o := x.order(s, c.a, c.b)
			w := 0
			if !x.decideEQ(s, o) {
				w = 1
				if !x.decideGE(s, o) {
					w = -1
				}
			}
			p, q := c.a, c.b
			if x.key(p) > x.key(q) {
				p, q = q, p
			}
			if eq, known := x.factOf(s, Fact{"eq", []Val{p, q}}); known && eq != (w == 0) {
				return nil // cannot be
			}
			_, isB := c.res.(VBool)
			for k, m := range map[string]int{"asc": 1, "desc": -1} {
				v := w * m
				if isB && v > 0 {
					v = 0
				}
				if v != r {
					fits[k] = false
				}
			}
			return nil
		})
	}
	switch {
	case fits["asc"]:
		return "asc"
	case fits["desc"]:
		return "desc"
	case fits["custom"]:
		return "custom:" + x.key(custom)
	}
	x.fail("%s: the comparison function implements neither the natural order, nor its reverse, nor the caller's", what)
	return ""
}

// pairOrder interprets a comparison of two elements of v.
func (z *sorter) pairOrder(st *State, v VSlice, et types.Type, what string, cmp func(st *State, i, j Lin, a, b Val) []Ret) string {
	x := z.x
	one := st.clone()
	i, j := x.lenSym("si"), x.lenSym("sj")
	one.cons = append(one.cons, LT(i, v.Len), LT(j, v.Len))
	x.retell(one, v, x.base("element", et))
	delete(one.ghost, "inner")
	delete(one.ghost, "inners")
	return z.orderOf(one, what, func(st *State) []comparison {
		var cs []comparison
		x.fork(st, func(st *State) []Ret {
			a, b := x.at(st, v, i, et), x.at(st, v, j, et)
			for _, q := range cmp(st, i, j, a, b) {
				if q.pan != nil {
					x.fail("the comparison function %s", panMsg(q.pan))
				}
				cs = append(cs, comparison{st: q.st, a: a, b: b, res: q.vals[0]})
			}
			return nil
		})
		return cs
	})
}

func (x *Exec) sliceElem(v Val) types.Type {
	if t := termType(v); t != nil {
		if s, ok := under(t).(*types.Slice); ok {
			return s.Elem()
		}
	}
	return nil
}

func (z *sorter) call(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
	x := z.x
	name = stripInst(name)
	if strings.HasPrefix(name, "call:") {
		return z.called(st, args, sig)
	}
	var fn string
	exp := strings.HasPrefix(name, "golang.org/x/exp/slices.")
	std := strings.HasPrefix(name, "slices.")
	srt := strings.HasPrefix(name, "sort.")
	if !exp && !std && !srt {
		return nil, false
	}
	fn = name[strings.LastIndex(name, ".")+1:]
	slice := func(v Val) (VSlice, bool) {
		if f, ok := v.(VIface); ok {
			v = f.V
		}
		s, ok := v.(VSlice)
		return s, ok
	}
	var elem types.Type
	sigOf := func(k int) *types.Signature { return under(sig.Params().At(k).Type()).(*types.Signature) }
	if len(args) > 0 && (exp || std) {
		if s, ok := under(sig.Params().At(0).Type()).(*types.Slice); ok {
			elem = s.Elem()
		}
	}
	if f, ok := args[0].(VIface); ok {
		if s, ok := under(f.T).(*types.Slice); ok {
			elem = s.Elem()
		}
	}
	byValue := func(k int) func(st *State, i, j Lin, a, b Val) []Ret {
		return func(st *State, i, j Lin, a, b Val) []Ret { return x.invoke(st, args[k], []Val{a, b}, sigOf(k)) }
	}
	byIndex := func(st *State, i, j Lin, a, b Val) []Ret {
		return x.invoke(st, args[1], []Val{VNum{i}, VNum{j}}, sigOf(1))
	}
	kind, stable := "", false
	var order func(st *State, v VSlice) string
	natural := func(st *State, v VSlice) string { return "asc" }
	pair := func(cmp func(st *State, i, j Lin, a, b Val) []Ret) func(st *State, v VSlice) string {
		return func(st *State, v VSlice) string { return z.pairOrder(st, v, elem, name, cmp) }
	}
	switch {
	case !srt && fn == "Sort":
		kind, order = "sort", natural
	case !srt && fn == "SortFunc":
		kind, order = "sort", pair(byValue(1))
	case !srt && fn == "SortStableFunc":
		kind, stable, order = "sort", true, pair(byValue(1))
	case !srt && fn == "IsSorted":
		kind, order = "test", natural
	case !srt && fn == "IsSortedFunc":
		kind, order = "test", pair(byValue(1))
	case srt && fn == "Slice":
		kind, order = "sort", pair(byIndex)
	case srt && fn == "SliceStable":
		kind, stable, order = "sort", true, pair(byIndex)
	case srt && fn == "SliceIsSorted":
		kind, order = "test", pair(byIndex)
	case !srt && fn == "BinarySearch", !srt && fn == "BinarySearchFunc", srt && fn == "Search":
		kind = "search"
	default:
		return nil, false
	}
	return x.fork(st, func(st *State) []Ret {
		if fn == "Search" && srt {
			return ret(st, z.first(st, args, sig))
		}
		v, ok := slice(args[0])
		if !ok {
			// no elements
			switch kind {
			case "sort":
				return ret(st)
			case "test":
				return ret(st, bconst(true))
			}
			return ret(st, VNum{K(0)}, bconst(false))
		}
		if kind == "search" {
			o := "asc"
			if x.decideEQ(st, v.Len) {
				return ret(st, z.found(st, o, v, args[1])...)
			}
			if fn == "BinarySearchFunc" {
				o = z.pairOrder(st, v, elem, name, func(st *State, i, j Lin, a, b Val) []Ret { return x.invoke(st, args[2], []Val{a, b}, sigOf(2)) })
			}
			return ret(st, z.found(st, o, v, args[1])...)
		}
		if kind == "test" {
			if x.decideGE(st, K(1).Sub(v.Len)) {
				return ret(st, bconst(true))
			}
			return ret(st, z.sorted(st, order(st, v), v))
		}
		if x.decideGE(st, K(1).Sub(v.Len)) {
			return ret(st) // any order of at most one element
		}
		x.retell(st, v, z.permuted(st, order(st, v), stable, x.snapshot(st, v), elem))
		return ret(st)
	}), true
}

// permuted is the content of a slice after sorting it.
func (z *sorter) permuted(st *State, order string, stable bool, old Val, et types.Type) *Base {
	k := "sorted"
	if stable {
		k = "stably sorted"
	}
	return z.x.base(k+" "+order+" "+z.x.key(old), et)
}

// first is sort.Search: where the predicate becomes true.
func (z *sorter) first(st *State, args []Val, sig *types.Signature) Val {
	x, m := z.x, z.m
	if x.decideEQ(st, x.num(args[0])) {
		return VNum{K(0)}
	}
	if m == nil || !m.search || !x.eqLin(st, x.num(args[0]), m.n) {
		x.fail("sort.Search over something else than the slice")
	}
	one := st.clone()
	i := x.lenSym("si")
	one.cons = append(one.cons, LT(i, m.n))
	x.fork(one, func(st *State) []Ret {
		for _, q := range x.invoke(st, args[1], []Val{VNum{i}}, under(sig.Params().At(1).Type()).(*types.Signature)) {
			if q.pan != nil {
				x.fail("the comparison function %s", panMsg(q.pan))
			}
			x.fork(q.st, func(st *State) []Ret {
				yes := x.decide(st, q.vals[0].(VBool).B)
				if !x.feasible(st) {
					return nil
				}
				if yes && !x.known(st, GE(i, m.p)) || !yes && !x.known(st, LT(i, m.p)) {
					x.fail("sort.Search with a predicate that does not tell whether the element is below the target")
				}
				return nil
			})
		}
		return nil
	})
	return VNum{m.p}
}

// isSlice: v holds what the slice the mode speaks of holds.
func (z *sorter) isSlice(st *State, v VSlice) bool {
	got, _ := z.x.content(st, v)
	ok, _ := z.x.seqEq(st, got, whole(z.m.b, z.m.n))
	return ok && z.x.eqLin(st, v.Len, z.m.n)
}

func (z *sorter) sorted(st *State, order string, v VSlice) Val {
	if m := z.m; m != nil && !m.search && m.order == order && z.isSlice(st, v) {
		return bconst(m.ok)
	}
	return VBool{BX{Kind: 'f', F: Fact{"sorted " + order, []Val{z.x.snapshot(st, v)}}}}
}

func (z *sorter) found(st *State, order string, v VSlice, target Val) []Val {
	x := z.x
	if x.decideEQ(st, v.Len) {
		return []Val{VNum{K(0)}, bconst(false)}
	}
	if m := z.m; m != nil && m.search && m.order == order && z.isSlice(st, v) && x.key(target) == x.key(m.target) {
		return []Val{VNum{m.p}, bconst(m.has)}
	}
	args := []Val{x.snapshot(st, v), target}
	i := S(x.ST.Intern("search "+order+":"+x.key(VTuple{args}), "place", big0, maxLen))
	st.cons = append(st.cons, LE(i, v.Len))
	return []Val{VNum{i}, VBool{BX{Kind: 'f', F: Fact{"found " + order, args}}}}
}

const sortPkg, searchPkg = "algox/sortx", "algox/searchx"

func runSort(r *Run) {
	type spec struct {
		pkg, name string
		order     string // asc, desc, custom, dir
		stable    bool
		test      bool
	}
	specs := []spec{
		{sortPkg, "Sort", "dir", false, false}, {sortPkg, "SortReverse", "desc", false, false},
		{sortPkg, "SortStable", "asc", true, false}, {sortPkg, "SortStableReverse", "desc", true, false},
		{sortPkg, "SortCustom", "custom", false, false}, {sortPkg, "SortStableCustom", "custom", true, false},
		{sortPkg, "IsSorted", "asc", false, true}, {sortPkg, "IsSortedReverse", "desc", false, true}, {sortPkg, "IsSortedCustom", "custom", false, true},
		{searchPkg, "Search", "asc", false, true}, {searchPkg, "SearchCustom", "custom", false, true},
	}
	for _, sp := range specs {
		sp := sp
		r.Obl(sp.pkg+" "+sp.name, func(c *Case) {
			x := c.X
			z := newSorter(c)
			fn := r.P.Fn(sp.pkg, sp.name)
			et := types.Type(fn.TypeParams().At(0))
			st := NewState()
			n, cp := x.lenSym("len(s)"), x.lenSym("cap(s)")
			st.cons = append(st.cons, GE(cp, n))
			b, back := x.base("s", et), x.base("s behind", et)
			v := VSlice{Obj: x.newObj(st, &Obj{Kind: OMem, V: VArr{seqCat(whole(b, n), whole(back, cp.Sub(n))), cp}}), Off: K(0), Len: n, Cap: cp}
			f := VTerm{Fn: "f", NN: true}
			args := []Val{v}
			var dir Val
			target := x.tok("target", et)
			if sp.pkg == searchPkg {
				args = append(args, target)
			}
			switch sp.order {
			case "dir":
				dir = x.fresh("reverse", types.Typ[types.Bool])
				args = append(args, dir)
			case "custom":
				args = append(args, f)
			}
			before := x.snapshot(st, v)
			type in struct {
				w    Val
				mode *sortMode
			}
			ins := []in{{v, nil}, {VNil{}, nil}}
			if sp.test {
				m := sortMode{search: sp.pkg == searchPkg, n: n, b: b, order: sp.order, target: target, p: x.lenSym("place")}
				if sp.order == "custom" {
					m.order, m.f = "custom:"+x.key(f), f
				}
				no, yes := m, m
				yes.ok, yes.has = true, true
				ins = []in{{v, &no}, {v, &yes}, {VNil{}, nil}}
			}
			for _, in := range ins {
				w := in.w
				z.m = in.mode
				st := st.clone()
				if m := z.m; m != nil {
					switch {
					case m.search && m.has:
						st.cons = append(st.cons, LT(m.p, n))
					case m.search:
						st.cons = append(st.cons, LE(m.p, n))
					case !m.ok:
						st.cons = append(st.cons, GE(m.p, K(1)), LT(m.p, n))
					}
					z.useMode()
				}
				args := append([]Val{w}, args[1:]...)
				c.Each(c.Call(st.clone(), fn, nil, args...), noPan(func(st *State, q Ret) string {
					order := sp.order
					if order == "dir" {
						order = "asc"
						if x.decide(st, dir.(VBool).B) {
							order = "desc"
						}
					} else if order == "custom" {
						order = "custom:" + x.key(f)
					}
					_, isNil := w.(VNil)
					switch {
					case isNil && sp.pkg == searchPkg:
						return first(x.numIs(st, "place", q.vals[0], K(0)), x.boolIs(st, "found", q.vals[1], false))
					case isNil && sp.test:
						return x.boolIs(st, "result", q.vals[0], true)
					case isNil:
						return ""
					}
					c1, _ := x.content(st, VSlice{v.Obj, v.Path, v.Off, cp, cp})
					got, rest := x.seqSplit(st, c1, n)
					same := func() string { return x.seqIs(st, "the slice", got, whole(b, n)) }
					if m := x.seqIs(st, "the memory behind the slice", rest, whole(back, cp.Sub(n))); m != "" {
						return m
					}
					switch {
					case sp.pkg == searchPkg:
						return first(same(), x.numIs(st, "place", q.vals[0], z.m.p), x.boolIs(st, "found", q.vals[1], z.m.has))
					case sp.test:
						return first(same(), x.boolIs(st, "result", q.vals[0], z.m.ok))
					case x.decideGE(st, K(1).Sub(n)):
						return same()
					}
					opp := map[string]string{"asc": "desc", "desc": "asc"}[order]
					for _, k := range []bool{true, false} {
						if sp.stable && !k {
							continue
						}
						if ok, _ := x.seqEq(st, got, whole(z.permuted(st, order, k, before, et), n)); ok {
							return ""
						}
						if sp.stable || opp == "" {
							continue
						}
						rev := z.permuted(st, opp, k, before, et)
						if ok, _ := x.seqEq(st, got, Seq{{Kind: PRev, B: rev, From: n.AddI(-1), To: K(-1)}}); ok {
							return ""
						}
					}
					return "the slice is left as " + x.showSeq(x.normSeq(st, got)) + ", expected it sorted " + order + map[bool]string{true: ", stably", false: ""}[sp.stable]
				}))
			}
		})
	}
}

func init() {
	register(&Prop{ID: "C23", Title: "sorting and searching", Pkgs: []string{sortPkg, searchPkg}, Min: 11,
		Trust: []string{"the sorting and searching algorithms of slices and sort are correct for the order they are given; ordered values are totally ordered (no NaN)"},
		Rule:  "abstract interpretation of each function on every slice, and of the comparison function it passes on, on two arbitrary elements: same slice, stability as named, exactly the order asked for, result passed through",
		Run:   runSort})
}
