package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type undecided struct{ msg string }
type goPanic struct{ kind, msg string }
type needSplit struct{ alts []alt }

type alt struct {
	cons  []Con
	facts []factVal
	do    func(*State)
}

type Ret struct {
	st   *State
	vals []Val
	pan  *Pan
}

// Hooks lets a property observe or replace parts of the semantics.
type Hooks struct {
	// Call may replace a call; name is the qualified callee name.
	Call func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool)
	// Load, Store see every access through a pointer.
	Load   func(st *State, p Val, t types.Type)
	Loaded func(st *State, p Val, t types.Type) (Val, bool)
	Store  func(st *State, p Val, v Val)
	// Stored may take a store over.
	Stored func(st *State, p Val, v Val) bool
	// Order gives a value with the sign of the comparison of a and b.
	Order func(st *State, a, b Val) (Lin, bool)
	// MapSet may take a map assignment over.
	MapSet func(st *State, m, k, v Val) bool
	// Coarse: uint64 arithmetic that may wrap has an unknown result.
	Coarse bool
	// Loose: the same for all 64-bit arithmetic.
	Loose bool
	// Peel: iterations of loops with small constant counters are kept apart.
	Peel int64
	// StoreVal may replace a value on its way to memory.
	StoreVal func(st *State, p Val, v Val) Val
	Lock     func(st *State, p Val, mode int, lock bool)
	Event    func(st *State, ev VTerm)
	Inline   func(fn *ssa.Function) (inline, known bool)
	// OneType: the type parameters of a name are the same, as only one instance
	// of each generic type is looked at.
	OneType bool
	// Append sees what is appended and may replace it.
	Append func(st *State, dst Val, c Seq, et types.Type) Seq
	// PoolGet gives the content of a recycled object.
	PoolNode func(st *State, t types.Type) Val
	Atomic   func(st *State, op string, p Val, args []Val, t types.Type) ([]Ret, bool)
	// Bin, Un and Conv may take over an operator.
	Bin  func(st *State, op token.Token, a, b Val, t types.Type) (Val, bool)
	Un   func(st *State, op token.Token, v Val, t types.Type) (Val, bool)
	Conv func(st *State, v Val, from, to types.Type) (Val, bool)
	// Wait sees each receive and select: the channels received from, and the
	// one chosen (-1: the default, or a send).
	Wait func(st *State, chans []Val, k int, blocking bool)
	// Alloc and MakeChan may give the object or channel made.
	Alloc    func(st *State, t types.Type) (Val, bool)
	MakeChan func(st *State, size Val, t types.Type) (Val, bool)
	// StoredOpaque may take over a store to memory that is not modelled.
	StoredOpaque func(st *State, base Val, path string, v Val) bool
	// Head sees a state that reaches the head of a loop; waits: the loop
	// receives or selects.
	Head func(st *State, waits bool)
	// Part names the kind of a state that reaches the head of a loop; states of
	// different kinds are kept apart.
	Part func(st *State) string
	// Equal sees pointers to the same object that are compared.
	Equal func(st *State, a, b VPtr)
}

type Exec struct {
	// rng may narrow the range of opaque integers (an assumption of the case)
	rng      func(v Val, t types.Type) (lo, hi *big.Int, ok bool)
	P        *Program
	ST       *SymTab
	H        Hooks
	nobj     int
	nuniq    int
	bases    map[string]*Base
	fis      map[*ssa.Function]*fnInfo
	globs    map[*ssa.Global]int
	anyGlob  map[*ssa.Global]bool
	atStart  bool // the state right after initialisation is analysed
	globID   map[int]bool
	globInit map[int]*Obj
	inits    map[*ssa.Package]*State
	funcs    map[*ssa.Function]int
	nodes    []*NodeDesc
	depth    int
	cur      ssa.Instruction
	nsteps   int
	npaths   int
	nforks   int
	nloops   int
	njoins   int
	limit    int
	deadline time.Time
	opPan    bool // opaque calls may panic
	keyPan   bool // map keys may be values that cannot be hashed
	conc     bool // other goroutines interfere
	quiet    bool
	eqMemo   map[string]bool
}

func NewExec(p *Program) *Exec {
	return &Exec{P: p, ST: NewSymTab(), bases: map[string]*Base{}, fis: map[*ssa.Function]*fnInfo{},
		globs: map[*ssa.Global]int{}, anyGlob: map[*ssa.Global]bool{}, globID: map[int]bool{}, globInit: map[int]*Obj{}, inits: map[*ssa.Package]*State{}, funcs: map[*ssa.Function]int{}, limit: 400000}
}

func NewState() *State {
	return &State{objs: map[int]*Obj{}, facts: map[string]factVal{}, ghost: map[string]Val{}}
}

func (x *Exec) fail(f string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(f, a...)})
}

// ---- symbols, tokens, bases

var maxLen = pow2(47)

func (x *Exec) symRange(name string, lo, hi *big.Int) Lin { return S(x.ST.Fresh(name, lo, hi)) }

func (x *Exec) lenSym(name string) Lin { return x.symRange(name, big0, maxLen) }

// weakSym is a length that loop joins forget the constraints of unless it is
// part of the state.
func (x *Exec) weakSym(name string) Lin {
	l := x.lenSym(name)
	s, _ := l.isSym()
	x.ST.info[s].weak = true
	return l
}

func (x *Exec) intSym(name string, t types.Type) Lin {
	lo, hi := intRange(t)
	return x.symRange(name, lo, hi)
}

func (x *Exec) tok(name string, t types.Type) VTerm {
	x.nuniq++
	return VTerm{Fn: name, Uniq: x.nuniq, T: t}
}

func (x *Exec) base(name string, elem types.Type) *Base {
	if b, ok := x.bases[name]; ok {
		return b
	}
	b := &Base{ID: len(x.bases) + 1, Name: name, Elem: elem}
	x.bases[name] = b
	return b
}

// termV makes the value of type t that an opaque term stands for.
func (x *Exec) termV(v VTerm, t types.Type) Val {
	v.T = t
	return x.opaque(v, t)
}

func (x *Exec) opaque(v Val, t types.Type) Val {
	switch {
	case isInt(t):
		lo, hi := intRange(t)
		if x.rng != nil {
			if l, h, ok := x.rng(v, t); ok {
				lo, hi = l, h
			}
		}
		key := x.key(v)
		s := x.ST.Intern("t:"+tstr(t)+":"+key, x.show(v), lo, hi)
		if x.ST.info[s].tag == nil {
			x.ST.info[s].tag = v
		}
		return VNum{S(s)}
	case isBool(t):
		return VBool{BX{Kind: 'f', F: Fact{"is", []Val{v}}}}
	}
	return v
}

// fresh is an unknown value of type t.
func (x *Exec) fresh(name string, t types.Type) Val {
	if tup, ok := t.(*types.Tuple); ok {
		var vs []Val
		for i := 0; i < tup.Len(); i++ {
			vs = append(vs, x.fresh(fmt.Sprintf("%s#%d", name, i), tup.At(i).Type()))
		}
		return VTuple{vs}
	}
	if isInt(t) {
		lo, hi := intRange(t)
		v := x.tok(name, t)
		s := x.ST.Fresh(fmt.Sprintf("%s@%d", name, v.Uniq), lo, hi)
		x.ST.info[s].tag = v
		return VNum{S(s)}
	}
	return x.termV(x.tok(name, t), t)
}

// unTag turns a bare tagged symbol or opaque boolean back into its term.
func (x *Exec) unTag(v Val) Val {
	switch v := v.(type) {
	case VNum:
		if s, ok := v.L.isSym(); ok {
			switch t := x.ST.info[s].tag.(type) {
			case VElem:
				return t
			}
		}
	case VBool:
		if v.B.Kind == 'f' && v.B.F.Pred == "is" && !v.B.Neg {
			if e, ok := v.B.F.Args[0].(VElem); ok {
				return e
			}
		}
	}
	return v
}

func (x *Exec) elem(b *Base, i Lin) Val {
	return x.opaque(VElem{b, i}, b.Elem)
}

func (x *Exec) newObj(st *State, o *Obj) int {
	x.nobj++
	st.objs[x.nobj] = o
	return x.nobj
}

func (x *Exec) newMem(st *State, v Val, t types.Type) VPtr {
	return VPtr{Obj: x.newObj(st, &Obj{Kind: OMem, T: t, V: v, Fresh: true})}
}

func (x *Exec) zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VNum{K(0)}
		case u.Info()&types.IsBoolean != 0:
			return bconst(false)
		case u.Info()&types.IsString != 0:
			return VTerm{Fn: `str:""`, T: t}
		case u.Kind() == types.UnsafePointer:
			return VNil{}
		}
		return VTerm{Fn: "const:0:" + u.Name(), T: t}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = x.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		n := K(u.Len())
		if u.Len() == 0 {
			return VArr{nil, n}
		}
		return VArr{Seq{{Kind: PRep, V: x.zero(u.Elem()), N: n}}, n}
	case *types.TypeParam:
		return VTerm{Fn: "zero:" + tstr(t), T: t}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = x.zero(u.At(i).Type())
		}
		return VTuple{f}
	}
	return VNil{}
}

// ---- deciding predicates

func (x *Exec) feasible(st *State) bool { return !x.ST.unsat(st.cons) }

func (x *Exec) known(st *State, c Con) bool { return x.ST.entails(st.cons, c) }

func (x *Exec) eqLin(st *State, a, b Lin) bool {
	if a.Eq(b) {
		return true
	}
	d := a.Sub(b)
	if d.isConst() {
		return d.K.Sign() == 0
	}
	return x.known(st, EQ(a, b))
}

func (x *Exec) decideGE(st *State, l Lin) bool {
	if l.isConst() {
		return l.K.Sign() >= 0
	}
	if x.known(st, Con{L: l}) {
		return true
	}
	n := l.Neg().AddI(-1)
	if x.known(st, Con{L: n}) {
		return false
	}
	panic(needSplit{[]alt{{cons: []Con{{L: l}}}, {cons: []Con{{L: n}}}}})
}

func (x *Exec) decideEQ(st *State, l Lin) bool {
	if l.isConst() {
		return l.K.Sign() == 0
	}
	ge := x.known(st, Con{L: l})
	le := x.known(st, Con{L: l.Neg()})
	if ge && le {
		return true
	}
	gt := x.known(st, Con{L: l.AddI(-1)})
	lt := x.known(st, Con{L: l.Neg().AddI(-1)})
	if gt || lt {
		return false
	}
	alts := []alt{{cons: []Con{{L: l, Eq: true}}}}
	if !le {
		alts = append(alts, alt{cons: []Con{{L: l.AddI(-1)}}})
	}
	if !ge {
		alts = append(alts, alt{cons: []Con{{L: l.Neg().AddI(-1)}}})
	}
	panic(needSplit{alts})
}

func (x *Exec) factOf(st *State, f Fact) (val, ok bool) {
	switch f.Pred {
	case "nil":
		switch v := f.Args[0].(type) {
		case VNil:
			return true, true
		case VTerm:
			if v.NN {
				return false, true
			}
		case VElem:
			if v.B.NN {
				return false, true
			}
		case VIface:
			if !mayBeIface(v.T) {
				return false, true
			}
		case VPtr, VSlice, VFunc:
			return false, true
		}
	}
	fv, ok := st.facts[x.factKey(f)]
	if ok {
		return fv.V, true
	}
	// annotated event segments
	for _, a := range f.Args {
		if e, ok := a.(VElem); ok {
			if v, ok := x.annFact(st, f, e); ok {
				return v, true
			}
		}
	}
	return false, false
}

func (x *Exec) setFact(st *State, f Fact, v bool) {
	st.facts[x.factKey(f)] = factVal{f, v}
}

func (x *Exec) decideFact(st *State, f Fact) bool {
	if v, ok := x.factOf(st, f); ok {
		return v
	}
	panic(needSplit{[]alt{{facts: []factVal{{f, true}}}, {facts: []factVal{{f, false}}}}})
}

func (x *Exec) decide(st *State, b BX) bool {
	var r bool
	switch b.Kind {
	case 'c':
		r = b.C
	case 'g':
		r = x.decideGE(st, b.L)
	case 'e':
		r = x.decideEQ(st, b.L)
	case 'f':
		r = x.decideFact(st, b.F)
	}
	return r != b.Neg
}

// knownBX reports whether b has the given truth value in st.
func (x *Exec) knownBX(st *State, b BX, want bool) bool {
	if b.Neg {
		want = !want
	}
	switch b.Kind {
	case 'c':
		return b.C == want
	case 'g':
		if want {
			return x.known(st, Con{L: b.L})
		}
		return x.known(st, Con{L: b.L.Neg().AddI(-1)})
	case 'e':
		if want {
			return x.known(st, Con{L: b.L, Eq: true})
		}
		return x.known(st, Con{L: b.L.AddI(-1)}) || x.known(st, Con{L: b.L.Neg().AddI(-1)})
	case 'f':
		v, ok := x.factOf(st, b.F)
		return ok && v == want
	}
	return false
}

// fork runs f on copies of st, splitting st wherever f cannot decide.
func (x *Exec) fork(st *State, f func(*State) []Ret) []Ret {
	var out []Ret
	work := []*State{st}
	n := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		c := s.clone()
		rs, sp := x.catch(func() []Ret { return f(c) })
		if sp == nil {
			for i := range rs {
				if rs[i].st == nil {
					rs[i].st = c
				}
			}
			out = append(out, rs...)
			continue
		}
		n++
		x.nforks++
		if n > 4000 {
			x.fail("too many case splits in one instruction")
		}
		for i := len(sp.alts) - 1; i >= 0; i-- {
			a := sp.alts[i]
			m := s.clone()
			if !x.apply(m, a) {
				continue
			}
			work = append(work, m)
		}
	}
	return out
}

func (x *Exec) apply(m *State, a alt) bool {
	if len(a.cons) > 0 {
		for _, c := range a.cons {
			if n, ok := c.norm(); ok {
				c = n
			}
			m.cons = append(m.cons, c)
		}
		if !x.feasible(m) {
			return false
		}
	}
	for _, fv := range a.facts {
		x.setFact(m, fv.F, fv.V)
	}
	if a.do != nil {
		a.do(m)
	}
	return true
}

func (x *Exec) catch(f func() []Ret) (rs []Ret, sp *needSplit) {
	depth := x.depth
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case needSplit:
				sp = &r
				x.depth = depth
			case goPanic:
				x.depth = depth
				rs = []Ret{{pan: &Pan{Kind: r.kind, Msg: r.msg, Pos: x.where(), Fn: x.curFn()}}}
			default:
				panic(r)
			}
		}
	}()
	return f(), nil
}

func (x *Exec) assume(st *State, c Con) bool {
	st.cons = append(st.cons, c)
	return x.feasible(st)
}

func (x *Exec) where() string {
	if x.cur == nil {
		return "?"
	}
	return x.P.posOf(x.cur)
}

func (x *Exec) curFn() string {
	if x.cur == nil || x.cur.Parent() == nil {
		return "?"
	}
	return x.cur.Parent().String()
}

// ---- function info

type fnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	live  []map[int]bool
	loops map[*ssa.BasicBlock]*loopInfo
}

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := x.fis[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness (phi operands are live at the end of the predecessor)
	nb := len(fn.Blocks)
	fi.live = make([]map[int]bool, nb)
	for i := range fi.live {
		fi.live[i] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := map[int]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					l[v] = true
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(l, fi.idx[ph])
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if k, ok := fi.idx[ph.Edges[pi]]; ok {
						l[k] = true
					}
				}
			}
			var ops []*ssa.Value
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if _, ok := in.(*ssa.Phi); !ok {
						delete(l, fi.idx[v])
					}
				}
				if _, ok := in.(*ssa.Phi); ok {
					l[fi.idx[in.(ssa.Value)]] = true
					continue
				}
				for _, o := range in.Operands(ops[:0]) {
					if *o == nil {
						continue
					}
					if k, ok := fi.idx[*o]; ok {
						l[k] = true
					}
				}
			}
			if len(l) != len(fi.live[i]) {
				fi.live[i] = l
				ch = true
			}
		}
	}
	// the recover block may read any alloc
	if fn.Recover != nil {
		for v := range fi.live[fn.Recover.Index] {
			for i := range fi.live {
				fi.live[i][v] = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[n] {
						continue
					}
					l.body[n] = true
					st = append(st, n.Preds...)
				}
			}
		}
	}
	x.fis[fn] = fi
	return fi
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	panic("pred")
}

// ---- running a function

type prov struct {
	c   *loopCtx
	key string
	ver int
}

type item struct {
	st   *State
	b    *ssa.BasicBlock
	i    int
	ctxs []*loopCtx
	prov []prov
	ret  *Ret
	rec  bool // running the recover block
}

func (x *Exec) callFn(st *State, fn *ssa.Function, tm TM, args, bind []Val) []Ret {
	if fn.Blocks == nil {
		x.fail("no body: %s", fn)
	}
	if x.depth > 80 {
		x.fail("call depth: %s", fn)
	}
	same := 0
	for _, f := range st.frames {
		if f.fn == fn {
			same++
		}
	}
	if same > 2 {
		x.fail("recursive function %s", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	x.funcs[fn]++
	fi := x.info(fn)
	fr := &Frame{fn: fn, fi: fi, tm: tm, env: make([]Val, fi.n), bind: bind}
	if len(args) != len(fn.Params) {
		x.fail("arity of %s", fn)
	}
	for i, p := range fn.Params {
		fr.env[fi.idx[p]] = args[i]
	}
	base := len(st.frames)
	saveMarks := st.marks
	s0 := st.clone()
	s0.marks = nil
	s0.frames = append(s0.frames, fr)
	var rets []Ret
	emit := func(r Ret) {
		if len(r.st.frames) != base+1 {
			panic("frames")
		}
		r.st.frames = r.st.frames[:base:base]
		r.st.marks = saveMarks
		rets = append(rets, r)
	}
	work := []item{{st: s0, b: fn.Blocks[0]}}
	for len(work) > 0 {
		// deepest loop context first, then latest
		// and a new round of a loop only when all that reaches its head is there
		k := len(work) - 1
		for j := k - 1; j >= 0; j-- {
			if a, b := len(work[j].ctxs), len(work[k].ctxs); a > b || a == b && work[k].atHead() {
				k = j
			}
		}
		it := work[k]
		work = append(work[:k], work[k+1:]...)
		stale := false
		for _, p := range it.prov {
			if p.c.ver[p.key] != p.ver {
				stale = true
			}
		}
		if stale {
			continue
		}
		if it.ret != nil {
			emit(*it.ret)
			continue
		}
		// Taken up in the order they come, so that wrapping a call in another
		// function leaves the order of the cases as it is.
		next := x.runItem(it)
		for i := len(next) - 1; i >= 0; i-- {
			work = append(work, next[i])
		}
	}
	return rets
}

func (it *item) atHead() bool {
	n := len(it.ctxs)
	return n > 0 && it.i == 0 && it.ret == nil && it.b == it.ctxs[n-1].l.head
}

// out is the effect of one instruction.
type out struct {
	to   *ssa.BasicBlock
	ret  bool
	vals []Val
	// call
	call bool
	fn   Val
	args []Val
	sig  *types.Signature
	dst  ssa.Value
}

func (x *Exec) runItem(it item) []item {
	fr := it.st.top()
	instrs := it.b.Instrs
	st := it.st
	for i := it.i; i < len(instrs); i++ {
		in := instrs[i]
		x.nsteps++
		if x.nsteps > x.limit {
			x.fail("step limit")
		}
		if x.nsteps&63 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
			x.fail("time limit")
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		x.cur = in
		var outs []out
		rs := x.fork(st, func(c *State) []Ret {
			o := x.step(c, in)
			outs = append(outs, o)
			return []Ret{{vals: []Val{len(outs) - 1}}}
		})
		var items []item
		next := func(s *State) {
			items = append(items, item{st: s, b: it.b, i: i + 1, ctxs: it.ctxs, prov: it.prov, rec: it.rec})
		}
		for _, r := range rs {
			if r.pan != nil {
				items = append(items, x.panicItems(it, r.st, r.pan)...)
				continue
			}
			o := outs[r.vals[0].(int)]
			switch {
			case o.ret:
				items = append(items, item{ret: &Ret{st: r.st, vals: o.vals}, prov: it.prov})
			case o.to != nil:
				items = append(items, x.jump(it, r.st, o.to)...)
			case o.call:
				qs := x.invoke(r.st, o.fn, o.args, o.sig)
				if b, ok := o.fn.(VTerm); ok && strings.HasPrefix(b.Fn, "builtin:") {
					// an append to a new array goes before one in place
					slices.Reverse(qs)
				}
				for _, q := range qs {
					x.cur = in
					if q.pan != nil {
						items = append(items, x.panicItems(it, q.st, q.pan)...)
						continue
					}
					if o.dst != nil {
						q.st.frames[len(q.st.frames)-1] = q.st.top().clone()
						q.st.top().env[fr.fi.idx[o.dst]] = packVals(q.vals)
					}
					next(q.st)
				}
			default:
				if _, ok := in.(*ssa.RunDefers); ok {
					items = append(items, x.runDefers(it, r.st, i)...)
					continue
				}
				next(r.st)
			}
		}
		if len(items) == 1 && items[0].ret == nil && items[0].b == it.b && items[0].i == i+1 && len(items[0].ctxs) == len(it.ctxs) {
			st = items[0].st
			continue
		}
		return items
	}
	return nil
}

func packVals(vs []Val) Val {
	switch len(vs) {
	case 0:
		return VTuple{}
	case 1:
		return vs[0]
	}
	return VTuple{vs}
}

// runDefers runs the pending deferred calls, then continues after instr i.
func (x *Exec) runDefers(it item, st *State, i int) []item {
	work := []*State{st}
	var items []item
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		fr := s.top()
		if len(fr.defers) == 0 {
			items = append(items, item{st: s, b: it.b, i: i + 1, ctxs: it.ctxs, prov: it.prov, rec: it.rec})
			continue
		}
		s = s.clone()
		fr = s.top()
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		for _, q := range x.invoke(s, d.fn, d.args, d.sig) {
			if q.pan != nil {
				items = append(items, x.panicItems(it, q.st, q.pan)...)
				continue
			}
			work = append(work, q.st)
		}
	}
	return items
}

// panicItems unwinds the current frame.
func (x *Exec) panicItems(it item, st *State, p *Pan) []item {
	var items []item
	type pend struct {
		st *State
		p  *Pan
	}
	work := []pend{{st, p}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		s := w.st.clone()
		fr := s.top()
		if len(fr.defers) == 0 {
			if w.p == nil {
				// recovered
				if fr.fn.Recover != nil {
					items = append(items, item{st: s, b: fr.fn.Recover, prov: it.prov, rec: true})
				} else {
					var vals []Val
					res := fr.fn.Signature.Results()
					for k := 0; k < res.Len(); k++ {
						vals = append(vals, x.zero(subst(fr.tm, res.At(k).Type())))
					}
					items = append(items, item{ret: &Ret{st: s, vals: vals}, prov: it.prov})
				}
				continue
			}
			items = append(items, item{ret: &Ret{st: s, pan: w.p}, prov: it.prov})
			continue
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		save := s.panics
		s.panics = w.p
		for _, q := range x.invoke(s, d.fn, d.args, d.sig) {
			np := q.st.panics
			q.st.panics = save
			if q.pan != nil {
				np = q.pan
			}
			work = append(work, pend{q.st, np})
		}
	}
	return items
}

// jump moves along an edge: phis, loop contexts.
func (x *Exec) jump(it item, st *State, to *ssa.BasicBlock) []item {
	from := it.b
	st = st.clone()
	fr := st.top()
	pi := predIndex(to, from)
	var nv []Val
	var ni []int
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nv = append(nv, x.val(st, ph.Edges[pi]))
		ni = append(ni, fr.fi.idx[ph])
	}
	for k := range nv {
		fr.env[ni[k]] = nv[k]
	}
	ctxs := it.ctxs
	for len(ctxs) > 0 && !ctxs[len(ctxs)-1].l.body[to] {
		ctxs = ctxs[:len(ctxs)-1]
		st.marks = st.marks[:len(st.marks)-1]
	}
	l := fr.fi.loops[to]
	if l == nil {
		return []item{{st: st, b: to, ctxs: ctxs, prov: it.prov, rec: it.rec}}
	}
	var ctx *loopCtx
	if len(ctxs) > 0 && ctxs[len(ctxs)-1].l == l {
		ctx = ctxs[len(ctxs)-1]
	} else {
		x.nloops++
		ctx = &loopCtx{l: l, inv: map[string]*loopInv{}, ver: map[string]int{}, objFloor: x.nobj + 1, uniqFl: x.nuniq + 1}
		ctxs = append(ctxs[:len(ctxs):len(ctxs)], ctx)
		st.marks = append(st.marks, len(st.trace))
		ctx.prov = it.prov
	}
	var items []item
	for _, s := range x.arrive(ctx, st, to) {
		items = append(items, item{st: s.st, b: to, ctxs: ctxs, prov: append(ctx.prov[:len(ctx.prov):len(ctx.prov)], prov{ctx, s.key, s.ver}), rec: it.rec})
	}
	return items
}

// ---- values

func (x *Exec) typ(st *State, t types.Type) types.Type { return subst(st.top().tm, t) }

func (x *Exec) val(st *State, v ssa.Value) Val {
	fr := st.top()
	if i, ok := fr.fi.idx[v]; ok {
		r := fr.env[i]
		if r == nil {
			x.fail("dead value %s in %s", v.Name(), fr.fn)
		}
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v, x.typ(st, v.Type()))
	case *ssa.Global:
		return VPtr{Obj: x.global(st, v)}
	case *ssa.Function:
		return x.fnVal(st, v)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.bind[i]
			}
		}
	case *ssa.Builtin:
		return VTerm{Fn: "builtin:" + v.Name(), NN: true}
	}
	x.fail("value %T %s", v, v)
	return nil
}

func (x *Exec) fnVal(st *State, f *ssa.Function) Val {
	var tm TM
	if f.Parent() != nil && len(st.frames) > 0 {
		return VFunc{Fn: f, TM: st.top().tm}
	}
	if o := f.Origin(); o != nil && o != f {
		tps := o.TypeParams()
		tm = TM{}
		for i := 0; i < tps.Len(); i++ {
			t := f.TypeArgs()[i]
			if len(st.frames) > 0 {
				t = x.typ(st, t)
			}
			tm[tps.At(i)] = t
		}
		f = o
	}
	return VFunc{Fn: f, TM: tm}
}

func (x *Exec) constant(c *ssa.Const, t types.Type) Val {
	if c.Value == nil {
		return x.zero(t)
	}
	switch {
	case isInt(t):
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			x.fail("constant %s", c)
		}
		return VNum{KB(n)}
	case isBool(t):
		return bconst(c.Value.ExactString() == "true")
	case isStr(t):
		return VTerm{Fn: "str:" + c.Value.ExactString(), T: t}
	case isTP(t):
		if c.Value.ExactString() == "0" {
			return x.zero(t)
		}
		return VTerm{Fn: "const:" + c.Value.ExactString() + ":" + tstr(t), T: t}
	}
	b := basicOf(t)
	if b != nil {
		return VTerm{Fn: "const:" + c.Value.ExactString() + ":" + b.Name(), T: t}
	}
	x.fail("constant %s", c)
	return nil
}

func (x *Exec) global(st *State, g *ssa.Global) int {
	id, ok := x.globs[g]
	if !ok {
		x.nobj++
		id = x.nobj
		x.globs[g] = id
		x.globID[id] = true
	}
	if st.objs[id] == nil {
		t := deref(g.Type())
		if g.Pkg != nil && x.P.repo[g.Pkg] {
			if in := x.inits[g.Pkg]; in != nil {
				for k, o := range in.objs {
					if st.objs[k] == nil {
						st.objs[k] = o
					}
				}
				have := map[string]bool{}
				for _, c := range st.cons {
					have[c.L.Key()] = true
				}
				for _, c := range in.cons {
					if !have[c.L.Key()] {
						st.cons = append(st.cons, c)
					}
				}
			}
		}
		if st.objs[id] == nil {
			v := x.termV(VTerm{Fn: "global:" + g.String(), NN: true}, t)
			if g.Pkg != nil && x.P.repo[g.Pkg] && (x.inits[g.Pkg] == nil || x.anyGlob[g]) {
				switch under(t).(type) {
				case *types.Basic, *types.Struct, *types.Array:
					v = x.fresh("global:"+g.String(), t)
				}
			}
			if x.globInit[id] == nil {
				x.globInit[id] = &Obj{Kind: OMem, T: t, V: v, Heap: g.String()}
			}
			st.objs[id] = x.globInit[id]
		}
	}
	return id
}

// InitPkg interprets the package initialiser so that globals have values.
func (x *Exec) InitPkg(p *ssa.Package) {
	if x.inits[p] != nil {
		return
	}
	st := NewState()
	x.inits[p] = st
	// zero all globals first
	for _, m := range sortedMembers(p) {
		if g, ok := m.(*ssa.Global); ok {
			x.nobj++
			x.globs[g] = x.nobj
			x.globID[x.nobj] = true
			t := deref(g.Type())
			st.objs[x.nobj] = &Obj{Kind: OMem, T: t, V: x.zero(t), Heap: g.String()}
		}
	}
	peel := x.H.Peel
	x.H.Peel = 256
	rs := x.callFn(st, p.Func("init"), nil, nil, nil)
	x.H.Peel = peel
	var ok []*State
	for _, r := range rs {
		if r.pan == nil {
			ok = append(ok, r.st)
		} else if len(rs) == 1 {
			x.fail("package init of %s %s", p, panMsg(r.pan))
		}
	}
	if len(ok) != 1 {
		x.fail("package init of %s has %d outcomes", p, len(ok))
	}
	x.inits[p] = ok[0]
	if x.atStart {
		return
	}
	// variables that other code changes hold anything when it is called
	for g := range x.P.changing(p) {
		t := deref(g.Type())
		if hasSync(t) {
			continue
		}
		delete(ok[0].objs, x.globs[g])
		x.anyGlob[g] = true
	}
}

// hasSync reports a type whose values only package sync changes.
func hasSync(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	var ks []string
	for k := range p.Members {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []ssa.Member
	for _, k := range ks {
		r = append(r, p.Members[k])
	}
	return r
}

func (x *Exec) num(v Val) Lin {
	n, ok := v.(VNum)
	if !ok {
		x.fail("number expected, have %s", x.show(v))
	}
	return n.L
}

// ---- instructions

func (x *Exec) set(st *State, v ssa.Value, r Val) {
	fr := st.top()
	fr.env[fr.fi.idx[v]] = r
}

func (x *Exec) step(st *State, in ssa.Instruction) out {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := x.typ(st, deref(in.Type()))
		if in.Heap && x.H.Alloc != nil {
			if v, ok := x.H.Alloc(st, t); ok {
				x.set(st, in, v)
				break
			}
		}
		x.set(st, in, x.newMem(st, x.zero(t), t))
	case *ssa.BinOp:
		if ph, ok := in.X.(*ssa.Phi); ok && ph.Comment == "rangeindex" && in.Op == token.ADD {
			// the index of a range loop is below a length
			if a, ok := x.val(st, in.X).(VNum); ok {
				x.set(st, in, VNum{a.L.AddI(1)})
				break
			}
		}
		x.set(st, in, x.binop(st, in.Op, x.val(st, in.X), x.val(st, in.Y), x.typ(st, in.X.Type()), x.typ(st, in.Y.Type())))
	case *ssa.UnOp:
		return x.unop(st, in)
	case *ssa.Call:
		fn, args, sig := x.callee(st, &in.Call)
		return out{call: true, fn: fn, args: args, sig: sig, dst: in}
	case *ssa.Defer:
		fn, args, sig := x.callee(st, &in.Call)
		fr := st.top()
		fr.defers = append(fr.defers, deferred{fn, args, sig, in})
	case *ssa.Go:
		fn, args, sig := x.callee(st, &in.Call)
		_ = sig
		x.event(st, VTerm{Fn: "go", Args: append([]Val{fn}, args...)})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		op := *in.Operands(nil)[0]
		v := x.val(st, op)
		// of a type parameter, either may make an interface value
		if t := x.typ(st, op.Type()); !isIface(t) && isIface(x.typ(st, in.(ssa.Value).Type())) {
			v = VIface{t, v}
		}
		x.set(st, in.(ssa.Value), v)
	case *ssa.Convert:
		x.set(st, in, x.convert(st, x.val(st, in.X), x.typ(st, in.X.Type()), x.typ(st, in.Type())))
	case *ssa.MultiConvert:
		x.set(st, in, x.convert(st, x.val(st, in.X), x.typ(st, in.X.Type()), x.typ(st, in.Type())))
	case *ssa.Extract:
		x.set(st, in, x.val(st, in.Tuple).(VTuple).F[in.Index])
	case *ssa.Field:
		x.set(st, in, x.field(st, x.val(st, in.X), in.Field, x.typ(st, in.X.Type())))
	case *ssa.FieldAddr:
		x.set(st, in, x.fieldAddr(st, x.val(st, in.X), in.Field, x.typ(st, in.Type())))
	case *ssa.If:
		if x.truth(st, x.val(st, in.Cond)) {
			return out{to: in.Block().Succs[0]}
		}
		return out{to: in.Block().Succs[1]}
	case *ssa.Jump:
		return out{to: in.Block().Succs[0]}
	case *ssa.Index:
		v := x.val(st, in.X)
		i := x.num(x.val(st, in.Index))
		a, ok := v.(VArr)
		if !ok {
			x.fail("index of %s", x.show(v))
		}
		x.bounds(st, i, a.N)
		x.set(st, in, x.seqGet(st, a.C, i))
	case *ssa.IndexAddr:
		x.set(st, in, x.indexAddr(st, x.val(st, in.X), x.num(x.val(st, in.Index)), x.typ(st, in.X.Type())))
	case *ssa.Lookup:
		x.lookup(st, in)
	case *ssa.MakeChan:
		if x.H.MakeChan != nil {
			if v, ok := x.H.MakeChan(st, x.val(st, in.Size), x.typ(st, in.Type())); ok {
				x.set(st, in, v)
				break
			}
		}
		t := x.tok("chan", x.typ(st, in.Type()))
		t.NN = true
		t.Args = []Val{x.val(st, in.Size)}
		x.set(st, in, t)
	case *ssa.MakeClosure:
		f := x.fnVal(st, in.Fn.(*ssa.Function)).(VFunc)
		f.TM = st.top().tm
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, x.val(st, b))
		}
		x.set(st, in, f)
	case *ssa.MakeInterface:
		if t := x.typ(st, in.X.Type()); isIface(t) {
			x.set(st, in, x.val(st, in.X))
		} else {
			x.set(st, in, VIface{t, x.val(st, in.X)})
		}
	case *ssa.MakeMap:
		mt := under(x.typ(st, in.Type())).(*types.Map)
		x.set(st, in, VPtr{Obj: x.newObj(st, &Obj{Kind: OMap, T: mt, M: &MapVal{Len: K(0), T: mt}, Fresh: true})})
	case *ssa.MakeSlice:
		x.set(st, in, x.makeSlice(st, in))
	case *ssa.MapUpdate:
		x.hash(st, x.val(st, in.Key))
		x.mapUpdate(st, x.val(st, in.Map), x.val(st, in.Key), x.val(st, in.Value), false)
	case *ssa.Next:
		x.next(st, in)
	case *ssa.Panic:
		v := x.val(st, in.X)
		panic(goPanic{"explicit", x.show(v)})
	case *ssa.Range:
		x.set(st, in, x.rangeIter(st, x.val(st, in.X), x.typ(st, in.X.Type())))
	case *ssa.Return:
		var vs []Val
		for _, r := range in.Results {
			vs = append(vs, x.val(st, r))
		}
		return out{ret: true, vals: vs}
	case *ssa.RunDefers:
	case *ssa.Select:
		x.selects(st, in)
	case *ssa.Send:
		x.event(st, VTerm{Fn: "send", Args: []Val{x.val(st, in.Chan), x.val(st, in.X)}})
	case *ssa.Slice:
		x.set(st, in, x.slice(st, in))
	case *ssa.Store:
		x.store(st, x.val(st, in.Addr), x.val(st, in.Val), x.typ(st, in.Val.Type()))
	case *ssa.TypeAssert:
		x.typeAssert(st, in)
	default:
		x.fail("instruction %T", in)
	}
	return out{}
}

func (x *Exec) truth(st *State, v Val) bool {
	b, ok := v.(VBool)
	if !ok {
		x.fail("boolean expected, have %s", x.show(v))
	}
	return x.decide(st, b.B)
}

func (x *Exec) callee(st *State, c *ssa.CallCommon) (Val, []Val, *types.Signature) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	sig := x.typ(st, c.Signature()).(*types.Signature)
	if c.IsInvoke() {
		recv := x.val(st, c.Value)
		if x.isNil(st, recv) {
			panic(goPanic{"nil", "method call on nil interface"})
		}
		if iv, ok := recv.(VIface); ok {
			if isTP(iv.T) {
				return VTerm{Fn: "invoke:" + c.Method.Name(), NN: true}, append([]Val{iv.V}, args...), sig
			}
			if f := x.P.Prog.LookupMethod(iv.T, c.Method.Pkg(), c.Method.Name()); f != nil {
				return x.fnVal(st, f), append([]Val{iv.V}, args...), sig
			}
			x.fail("method %s of %s", c.Method.Name(), iv.T)
		}
		return VTerm{Fn: "invoke:" + c.Method.Name(), NN: true}, append([]Val{recv}, args...), sig
	}
	return x.val(st, c.Value), args, sig
}

// isNil decides whether v is nil.
func (x *Exec) isNil(st *State, v Val) bool {
	switch v := v.(type) {
	case VNil:
		return true
	case VPtr:
		if o := st.objs[v.Obj]; o != nil && o.Kind == ORun && len(v.Path) == 0 {
			h := x.runHead(st, v)
			if _, ptr := h.(VPtr); !ptr {
				return x.isNil(st, h)
			}
		}
		return false
	case VIface:
		// the type may stand for an interface type whose value is nil
		if mayBeIface(v.T) {
			return x.decideFact(st, Fact{"nil", []Val{v}})
		}
		return false
	case VSlice, VFunc:
		return false
	case VTerm, VElem:
		return x.decideFact(st, Fact{"nil", []Val{v}})
	}
	x.fail("nil test of %s", x.show(v))
	return false
}

// mayBeIface reports that t is a type parameter whose constraint admits
// interface types.
func mayBeIface(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.TypeParam)
	if !ok {
		return false
	}
	i, ok := p.Constraint().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumEmbeddeds(); k++ {
		switch e := i.EmbeddedType(k).(type) {
		case *types.Union:
			return false
		default:
			ei, ok := e.Underlying().(*types.Interface)
			if !ok || !ei.IsMethodSet() && !ei.IsComparable() {
				return false
			}
			if ei.NumEmbeddeds() > 0 && !ei.IsMethodSet() {
				return false
			}
		}
	}
	return true
}

func (x *Exec) unop(st *State, in *ssa.UnOp) out {
	v := x.val(st, in.X)
	t := x.typ(st, in.Type())
	if x.H.Un != nil {
		if r, ok := x.H.Un(st, in.Op, v, t); ok {
			x.set(st, in, r)
			return out{}
		}
	}
	switch in.Op {
	case token.MUL:
		x.set(st, in, x.load(st, v, t))
	case token.NOT:
		x.set(st, in, VBool{v.(VBool).B.not()})
	case token.SUB:
		if n, ok := v.(VNum); ok {
			x.set(st, in, VNum{x.wrap(st, n.L.Neg(), t)})
		} else {
			x.set(st, in, x.termV(VTerm{Fn: "op:neg", Args: []Val{v}}, t))
		}
	case token.XOR:
		if n, ok := v.(VNum); ok {
			_, hi := intRange(t)
			if _, signed := intBits(basicOf(t)); signed {
				x.set(st, in, VNum{n.L.Neg().AddI(-1)})
			} else {
				x.set(st, in, VNum{KB(hi).Sub(n.L)})
			}
		} else {
			x.set(st, in, x.termV(VTerm{Fn: "op:not", Args: []Val{v}}, t))
		}
	case token.ARROW:
		et := under(x.typ(st, in.X.Type())).(*types.Chan).Elem()
		if x.H.Wait != nil {
			x.H.Wait(st, []Val{v}, 0, true)
		}
		v, ok := x.recv(st, v, et, true)
		if in.CommaOk {
			x.set(st, in, VTuple{[]Val{v, ok}})
		} else {
			x.set(st, in, v)
		}
	default:
		x.fail("unary %s", in.Op)
	}
	return out{}
}

// choice is an arbitrary decision.
func (x *Exec) choice(st *State, key string) bool {
	g, have := st.ghost[key]
	if !have {
		panic(needSplit{[]alt{
			{do: func(s *State) { s.ghost[key] = bconst(true) }},
			{do: func(s *State) { s.ghost[key] = bconst(false) }},
		}})
	}
	delete(st.ghost, key)
	return g.(VBool).B.C
}

// recv models a receive: a value was sent, or the channel is closed.
func (x *Exec) recv(st *State, ch Val, et types.Type, ev bool) (Val, Val) {
	g, have := st.ghost["recv"]
	if !have {
		panic(needSplit{[]alt{
			{do: func(s *State) { s.ghost["recv"] = bconst(true) }},
			{do: func(s *State) { s.ghost["recv"] = bconst(false) }},
		}})
	}
	delete(st.ghost, "recv")
	if g.(VBool).B.C {
		v := x.fresh("recv", et)
		if ev {
			x.event(st, VTerm{Fn: "recv", Args: []Val{ch, v}})
		}
		return v, bconst(true)
	}
	if ev {
		x.event(st, VTerm{Fn: "recvclosed", Args: []Val{ch}})
	}
	return x.zero(et), bconst(false)
}

func (x *Exec) selects(st *State, in *ssa.Select) {
	n := len(in.States)
	if !in.Blocking {
		n++
	}
	g, have := st.ghost["select"]
	if !have {
		var alts []alt
		for i := 0; i < n; i++ {
			i := i
			if i < len(in.States) {
				// a nil channel is never ready
				if _, isNil := x.val(st, in.States[i].Chan).(VNil); isNil {
					continue
				}
			}
			alts = append(alts, alt{do: func(s *State) { s.ghost["select"] = VNum{K(int64(i))} }})
		}
		if len(alts) == 0 {
			panic(goPanic{"deadlock", "select without a channel that can be ready"})
		}
		panic(needSplit{alts})
	}
	k64, _ := x.num(g).constInt()
	k := int(k64)
	if x.H.Wait != nil {
		var chans []Val
		c := -1
		for i, s := range in.States {
			if s.Dir == types.RecvOnly {
				if i == k {
					c = len(chans)
				}
				chans = append(chans, x.val(st, s.Chan))
			}
		}
		x.H.Wait(st, chans, c, in.Blocking)
	}
	if k < len(in.States) && in.States[k].Dir == types.RecvOnly {
		// whether the channel is closed is split inside recv
		s := in.States[k]
		et := under(x.typ(st, s.Chan.Type())).(*types.Chan).Elem()
		v, ok := x.recv(st, x.val(st, s.Chan), et, true)
		x.setSelect(st, in, k, v, ok)
	} else {
		if k < len(in.States) {
			s := in.States[k]
			x.event(st, VTerm{Fn: "send", Args: []Val{x.val(st, s.Chan), x.val(st, s.Send)}})
		}
		if k == len(in.States) {
			k = -1
		}
		x.setSelect(st, in, k, nil, bconst(false))
	}
	delete(st.ghost, "select")
}

func (x *Exec) setSelect(st *State, in *ssa.Select, k int, v, ok Val) {
	r := []Val{VNum{K(int64(k))}, ok}
	for i, s := range in.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		if i == k {
			r = append(r, v)
		} else {
			r = append(r, x.zero(under(x.typ(st, s.Chan.Type())).(*types.Chan).Elem()))
		}
	}
	x.set(st, in, VTuple{r})
}

func (x *Exec) event(st *State, ev VTerm) {
	for i := range ev.Args {
		ev.Args[i] = x.unTag(ev.Args[i])
	}
	if x.H.Event != nil {
		x.H.Event(st, ev)
	}
	st.trace = append(st.trace, Piece{Kind: POne, V: ev})
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) {
	v := x.val(st, in.X)
	at := x.typ(st, in.AssertedType)
	done := func(r Val, ok bool) {
		if in.CommaOk {
			if !ok {
				r = x.zero(at)
			}
			x.set(st, in, VTuple{[]Val{r, bconst(ok)}})
			return
		}
		if !ok {
			panic(goPanic{"typeassert", "interface is not " + tstr(at)})
		}
		x.set(st, in, r)
	}
	switch v := v.(type) {
	case VNil:
		done(nil, false)
	case VIface:
		if isIface(at) {
			if isTP(v.T) {
				done(v, x.decideFact(st, Fact{"typ:" + tstr(at), []Val{v}}))
				return
			}
			done(v, types.Implements(v.T, under(at).(*types.Interface)))
			return
		}
		if types.Identical(v.T, at) {
			done(v.V, true)
		} else if x.H.OneType && tstr(v.T) == tstr(at) {
			done(v.V, true)
		} else if hasTP(v.T) || hasTP(at) {
			ok := x.decideFact(st, Fact{"same:" + tstr(v.T) + "," + tstr(at), nil})
			done(v.V, ok)
		} else {
			done(nil, false)
		}
	case VTerm, VElem:
		if x.isNil(st, v) {
			done(nil, false)
			return
		}
		if isIface(at) {
			done(v, x.decideFact(st, Fact{"typ:" + tstr(at), []Val{v}}))
			return
		}
		ok := x.decideFact(st, Fact{"typ:" + tstr(at), []Val{v}})
		if ok {
			done(x.termV(VTerm{Fn: "as:" + tstr(at), Args: []Val{v}, NN: true}, at), true)
		} else {
			done(nil, false)
		}
	default:
		x.fail("type assertion on %s", x.show(v))
	}
}

func hasTP(t types.Type) bool {
	switch t := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return hasTP(t.Elem())
	case *types.Slice:
		return hasTP(t.Elem())
	case *types.Array:
		return hasTP(t.Elem())
	case *types.Chan:
		return hasTP(t.Elem())
	case *types.Map:
		return hasTP(t.Key()) || hasTP(t.Elem())
	case *types.Named:
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if hasTP(t.TypeArgs().At(i)) {
				return true
			}
		}
	case *types.Signature:
		for _, tu := range []*types.Tuple{t.Params(), t.Results()} {
			for i := 0; i < tu.Len(); i++ {
				if hasTP(tu.At(i).Type()) {
					return true
				}
			}
		}
	}
	return false
}

// ---- arithmetic

// wrap reduces l into the range of integer type t.
func (x *Exec) wrap(st *State, l Lin, t types.Type) Lin {
	lo, hi := intRange(t)
	if l.isConst() {
		w := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
		k := new(big.Int).Sub(l.K, lo)
		k.Mod(k, w)
		return KB(k.Add(k, lo))
	}
	if s, ok := l.isSym(); ok {
		in := x.ST.info[s]
		if in.lo != nil && in.hi != nil && in.lo.Cmp(lo) >= 0 && in.hi.Cmp(hi) <= 0 {
			return l
		}
	}
	w := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
	if (x.H.Coarse && lo.Sign() == 0 || x.H.Loose) && hi.BitLen() >= 63 &&
		!(x.known(st, Con{L: l.Sub(KB(lo))}) && x.known(st, Con{L: KB(hi).Sub(l)})) {
		return S(x.ST.Intern("wrap:"+tstr(t)+l.Key(), "wrap", lo, hi))
	}
	for n := 0; ; n++ {
		if n > 4 {
			// too far out of range: an unknown value of the type
			s := x.ST.Intern("wrap:"+tstr(t)+l.Key(), "wrap", lo, hi)
			return S(s)
		}
		// order matters for readability of splits only
		if !x.decideGE(st, l.Sub(KB(lo))) {
			l = l.Add(KB(w))
			continue
		}
		if !x.decideGE(st, KB(hi).Sub(l)) {
			l = l.Sub(KB(w))
			continue
		}
		return l
	}
}

func (x *Exec) nonlin(op string, a, b Lin, lo, hi *big.Int) Lin {
	return S(x.ST.Intern("nl:"+op+":"+a.Key()+":"+b.Key(), op+"("+x.ST.Str(a)+","+x.ST.Str(b)+")", lo, hi))
}

func (x *Exec) arith(st *State, op token.Token, a, b Lin, t types.Type, yt types.Type) Lin {
	lo, hi := intRange(t)
	bits, signed := intBits(basicOf(t))
	switch op {
	case token.ADD:
		return x.wrap(st, a.Add(b), t)
	case token.SUB:
		return x.wrap(st, a.Sub(b), t)
	case token.MUL:
		if a.isConst() {
			return x.wrap(st, b.Mul(a.K), t)
		}
		if b.isConst() {
			return x.wrap(st, a.Mul(b.K), t)
		}
		if a.Key() > b.Key() {
			a, b = b, a
		}
		// no overflow is assumed for products of two variables
		za, zb := x.decideEQ(st, a), x.decideEQ(st, b)
		if za || zb {
			return K(0)
		}
		pos := x.decideGE(st, a) && x.decideGE(st, b)
		r := x.nonlin("*", a, b, lo, hi)
		if pos {
			st.cons = append(st.cons, GE(r, a), GE(r, b))
		}
		return r
	case token.QUO, token.REM:
		if x.decideEQ(st, b) {
			panic(goPanic{"divide", "integer divide by zero"})
		}
		if a.isConst() && b.isConst() {
			if op == token.QUO {
				return x.wrap(st, KB(new(big.Int).Quo(a.K, b.K)), t)
			}
			return KB(new(big.Int).Rem(a.K, b.K))
		}
		if b.isConst() && b.K.Sign() > 0 && (x.known(st, GE(a, K(0))) || !signed) {
			q := x.ST.divFloor(a, b.K)
			if op == token.QUO {
				return q
			}
			return a.Sub(q.Mul(b.K))
		}
		if signed && !x.decideGE(st, a) {
			// -(−a op b)
			q := x.arith(st, op, a.Neg(), b, t, yt)
			return q.Neg()
		}
		if signed && !x.decideGE(st, b) {
			q := x.arith(st, op, a, b.Neg(), t, yt)
			if op == token.QUO {
				return q.Neg()
			}
			return q
		}
		// a >= 0, b > 0
		if b.isConst() {
			q := x.ST.divFloor(a, b.K)
			if op == token.QUO {
				return q
			}
			return a.Sub(q.Mul(b.K))
		}
		if x.known(st, LE(a, b.MulI(4))) {
			q := int64(0)
			for x.decideGE(st, a.Sub(b.MulI(q+1))) {
				q++
			}
			if op == token.QUO {
				return K(q)
			}
			return a.Sub(b.MulI(q))
		}
		if !x.decideGE(st, a.Sub(b)) {
			if op == token.QUO {
				return K(0)
			}
			return a
		}
		r := x.defNL("%", a, b, big0, hi, func(r Lin) []Con { return []Con{LT(r, b), LE(r, a)} })
		if op == token.QUO {
			q := x.defNL("/", a, b, big0, hi, func(q Lin) []Con { return []Con{LE(q, a)} })
			st.cons = append(st.cons, GE(q, K(1)))
			return q
		}
		return r
	case token.SHL:
		if b.isConst() && b.K.IsInt64() {
			n := b.K.Int64()
			if n < 0 {
				panic(goPanic{"shift", "negative shift amount"})
			}
			if n >= int64(bits) {
				return K(0)
			}
			return x.wrap(st, a.Mul(pow2(uint(n))), t)
		}
		if _, ys := intBits(basicOf(yt)); ys && !x.decideGE(st, b) {
			panic(goPanic{"shift", "negative shift amount"})
		}
		return x.nonlin("<<"+tstr(t), a, b, lo, hi)
	case token.SHR:
		if b.isConst() && b.K.IsInt64() {
			n := b.K.Int64()
			if n < 0 {
				panic(goPanic{"shift", "negative shift amount"})
			}
			if n == 0 {
				return a
			}
			if n > int64(bits) {
				n = int64(bits)
			}
			return x.ST.divFloor(a, pow2(uint(n)))
		}
		if _, ys := intBits(basicOf(yt)); ys && !x.decideGE(st, b) {
			panic(goPanic{"shift", "negative shift amount"})
		}
		return x.nonlin(">>"+tstr(t), a, b, lo, hi)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(st, op, a, b, t)
	}
	x.fail("arithmetic %s", op)
	return Lin{}
}

func (x *Exec) defNL(op string, a, b Lin, lo, hi *big.Int, def func(Lin) []Con) Lin {
	r := x.nonlin(op, a, b, lo, hi)
	s, _ := r.isSym()
	if x.ST.info[s].defs == nil {
		x.ST.info[s].defs = def(r)
	}
	return r
}

func (x *Exec) bitop(st *State, op token.Token, a, b Lin, t types.Type) Lin {
	lo, hi := intRange(t)
	if a.isConst() && b.isConst() {
		bits, signed := intBits(basicOf(t))
		m := pow2(bits)
		ua := new(big.Int).Mod(a.K, m)
		ub := new(big.Int).Mod(b.K, m)
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(ua, ub)
		case token.OR:
			r.Or(ua, ub)
		case token.XOR:
			r.Xor(ua, ub)
		case token.AND_NOT:
			r.AndNot(ua, ub)
		}
		if signed && r.Cmp(hi) > 0 {
			r.Sub(r, m)
		}
		return KB(r)
	}
	switch op {
	case token.OR:
		if a.isZero() {
			return b
		}
		if b.isZero() {
			return a
		}
		// disjoint bits: a < 2^k and every coefficient of b a multiple of 2^k
		if x.disjoint(st, a, b) || x.disjoint(st, b, a) {
			return a.Add(b)
		}
	case token.AND:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.K.Sign() >= 0 && x.known(st, GE(a, K(0))) {
			m := new(big.Int).Add(b.K, big1)
			if new(big.Int).And(m, b.K).Sign() == 0 {
				return a.Sub(x.ST.divFloor(a, m).Mul(m))
			}
			return S(x.ST.Intern("nl:&:"+a.Key()+":"+b.Key(), "and", big0, b.K))
		}
	}
	if op != token.AND_NOT && a.Key() > b.Key() {
		a, b = b, a
	}
	if x.known(st, GE(a, K(0))) && x.known(st, GE(b, K(0))) {
		lo = big0
	}
	return x.nonlin(op.String(), a, b, lo, hi)
}

func (x *Exec) disjoint(st *State, low, high Lin) bool {
	g := new(big.Int).Set(new(big.Int).Abs(high.K))
	for _, t := range high.T {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.C))
	}
	if g.Sign() == 0 {
		return true
	}
	// largest power of two dividing g
	k := g.TrailingZeroBits()
	return x.known(st, GE(low, K(0))) && x.known(st, LT(low, KB(pow2(k)))) && x.known(st, GE(high, K(0)))
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t, yt types.Type) Val {
	if x.H.Bin != nil {
		if r, ok := x.H.Bin(st, op, a, b, t); ok {
			return r
		}
	}
	an, aok := a.(VNum)
	bn, bok := b.(VNum)
	if aok && bok {
		switch op {
		case token.EQL:
			return x.cmpLin('e', an.L.Sub(bn.L), false)
		case token.NEQ:
			return x.cmpLin('e', an.L.Sub(bn.L), true)
		case token.LSS:
			return x.cmpLin('g', bn.L.Sub(an.L).AddI(-1), false)
		case token.LEQ:
			return x.cmpLin('g', bn.L.Sub(an.L), false)
		case token.GTR:
			return x.cmpLin('g', an.L.Sub(bn.L).AddI(-1), false)
		case token.GEQ:
			return x.cmpLin('g', an.L.Sub(bn.L), false)
		}
		return VNum{x.arith(st, op, an.L, bn.L, t, yt)}
	}
	switch op {
	case token.EQL:
		return bconst2(x.equal(st, a, b, t))
	case token.NEQ:
		return VBool{bconst2(x.equal(st, a, b, t)).B.not()}
	}
	// ordered comparison of opaque values
	var c Lin
	if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
		c = x.order(st, a, b)
		switch op {
		case token.LSS:
			return x.cmpLin('g', c.Neg().AddI(-1), false)
		case token.LEQ:
			return x.cmpLin('g', c.Neg(), false)
		case token.GTR:
			return x.cmpLin('g', c.AddI(-1), false)
		case token.GEQ:
			return x.cmpLin('g', c, false)
		}
	}
	if isStr(t) && op == token.ADD {
		if v, ok := a.(VTerm); ok && v.Fn == `str:""` {
			return b
		}
		if v, ok := b.(VTerm); ok && v.Fn == `str:""` {
			return a
		}
		return VTerm{Fn: "concat", Args: []Val{a, b}, T: t}
	}
	// shift counts of opaque type: negative panics
	if (op == token.SHL || op == token.SHR) && bok {
		if _, signed := intBits(basicOf(yt)); signed && !x.decideGE(st, bn.L) {
			panic(goPanic{"shift", "negative shift amount"})
		}
	}
	a, b = x.unTag(a), x.unTag(b)
	// normal forms
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if x.key(a) > x.key(b) {
			a, b = b, a
		}
	case token.AND_NOT:
		op = token.AND
		b = x.termV(VTerm{Fn: "op:not", Args: []Val{b}}, t)
		if x.key(a) > x.key(b) {
			a, b = b, a
		}
	}
	return x.termV(VTerm{Fn: "op:" + op.String(), Args: []Val{a, b}}, t)
}

// order is the three-way comparison of two opaque ordered values in [-1,1].
func (x *Exec) order(st *State, a, b Val) Lin {
	if x.H.Order != nil {
		if l, ok := x.H.Order(st, a, b); ok {
			return l
		}
	}
	ka, kb := x.key(a), x.key(b)
	if ka == kb {
		return K(0)
	}
	if ea, ok := a.(VElem); ok {
		if eb, ok := b.(VElem); ok && ea.B == eb.B && x.known(st, EQ(ea.Idx, eb.Idx)) {
			return K(0)
		}
	}
	if ka < kb {
		return S(x.ST.Intern("cmp:"+ka+"|"+kb, "cmp("+x.show(a)+","+x.show(b)+")", bigM1, big1))
	}
	return S(x.ST.Intern("cmp:"+kb+"|"+ka, "cmp("+x.show(b)+","+x.show(a)+")", bigM1, big1)).Neg()
}

func (x *Exec) cmpLin(kind byte, l Lin, neg bool) Val {
	if l.isConst() {
		var r bool
		if kind == 'e' {
			r = l.K.Sign() == 0
		} else {
			r = l.K.Sign() >= 0
		}
		return bconst(r != neg)
	}
	return VBool{BX{Kind: kind, L: l, Neg: neg}}
}

func bconst2(b BX) VBool { return VBool{b} }

// equal is a == b.
func (x *Exec) equal(st *State, a, b Val, t types.Type) BX {
	cb := func(v bool) BX { return BX{Kind: 'c', C: v} }
	if an, ok := a.(VNum); ok {
		if bn, ok := b.(VNum); ok {
			return x.cmpLin('e', an.L.Sub(bn.L), false).(VBool).B
		}
	}
	if ab, ok := a.(VBool); ok {
		bb, ok := b.(VBool)
		if !ok {
			x.fail("bool comparison")
		}
		if bb.B.Kind == 'c' {
			if bb.B.C {
				return ab.B
			}
			return ab.B.not()
		}
		if ab.B.Kind == 'c' {
			if ab.B.C {
				return bb.B
			}
			return bb.B.not()
		}
		if x.decide(st, ab.B) {
			return bb.B
		}
		return bb.B.not()
	}
	if _, ok := a.(VNil); ok {
		a, b = b, a
	}
	if _, ok := b.(VNil); ok {
		switch a.(type) {
		case VTerm, VElem:
			if x.key(a) == x.key(b) {
				return cb(true)
			}
			if v, ok := x.factOf(st, Fact{"nil", []Val{a}}); ok {
				return cb(v)
			}
			return BX{Kind: 'f', F: Fact{"nil", []Val{a}}}
		}
		return cb(x.isNil(st, a))
	}
	if pa, ok := a.(VPtr); ok {
		a = x.runHead(st, pa)
	}
	if pb, ok := b.(VPtr); ok {
		b = x.runHead(st, pb)
	}
	if _, ok := a.(VNil); ok {
		return cb(x.isNil(st, b))
	}
	if _, ok := b.(VNil); ok {
		return cb(x.isNil(st, a))
	}
	if pa, ok := a.(VPtr); ok {
		if pb, ok := b.(VPtr); ok {
			if pa.Obj != pb.Obj {
				return cb(false)
			}
			if x.H.Equal != nil {
				x.H.Equal(st, pa, pb)
			}
			if len(pa.Path) != len(pb.Path) {
				return cb(false)
			}
			for i := range pa.Path {
				if pa.Path[i].W && pb.Path[i].W {
					continue
				}
				if pa.Path[i].Idx != nil && pb.Path[i].Idx != nil {
					if !x.decideEQ(st, pa.Path[i].Idx.Sub(*pb.Path[i].Idx)) {
						return cb(false)
					}
				} else if pa.Path[i].F != pb.Path[i].F {
					return cb(false)
				}
			}
			return cb(true)
		}
		if _, ok := b.(VTerm); ok {
			return cb(false)
		}
		if _, ok := b.(VElem); ok {
			return cb(false)
		}
	}
	if _, ok := b.(VPtr); ok {
		switch a.(type) {
		case VTerm, VElem:
			return cb(false)
		}
	}
	if sa, ok := a.(VStruct); ok {
		if sb, ok := b.(VStruct); ok {
			st2 := under(t).(*types.Struct)
			for i := range sa.F {
				if !x.decide(st, x.equal(st, sa.F[i], sb.F[i], st2.Field(i).Type())) {
					return cb(false)
				}
			}
			return cb(true)
		}
	}
	if ia, ok := a.(VIface); ok {
		if ib, ok := b.(VIface); ok {
			if !types.Identical(ia.T, ib.T) {
				if hasTP(ia.T) || hasTP(ib.T) {
					return BX{Kind: 'f', F: Fact{"eqif", []Val{a, b}}}
				}
				return cb(false)
			}
			return x.equal(st, ia.V, ib.V, ia.T)
		}
	}
	ka, kb := x.key(a), x.key(b)
	if ka == kb {
		return cb(true)
	}
	ta, ok1 := a.(VTerm)
	tb, ok2 := b.(VTerm)
	if ok1 && ok2 {
		if strings.HasPrefix(ta.Fn, "global:") && strings.HasPrefix(tb.Fn, "global:") {
			return cb(false)
		}
		if strings.HasPrefix(ta.Fn, "err:") && strings.HasPrefix(tb.Fn, "err:") {
			return cb(false)
		}
		if strings.HasPrefix(ta.Fn, "str:") && strings.HasPrefix(tb.Fn, "str:") {
			return cb(false)
		}
		if strings.HasPrefix(ta.Fn, "type:") && strings.HasPrefix(tb.Fn, "type:") && !strings.Contains(ta.Fn, "?") && !strings.Contains(tb.Fn, "?") {
			return cb(false)
		}
		if ta.Fn == "chan" && tb.Fn == "chan" {
			return cb(ta.Uniq == tb.Uniq)
		}
	}
	if ea, ok := a.(VElem); ok {
		if eb, ok := b.(VElem); ok && ea.B == eb.B {
			if x.decideEQ(st, ea.Idx.Sub(eb.Idx)) {
				return cb(true)
			}
			if ea.B.Dist {
				return cb(false)
			}
		}
	}
	if t != nil && isTP(t) && ordered(t) {
		return x.cmpLin('e', x.order(st, a, b), false).(VBool).B
	}
	if ka > kb {
		a, b = b, a
	}
	f := Fact{"eq", []Val{a, b}}
	if v, ok := x.factOf(st, f); ok {
		return cb(v)
	}
	return BX{Kind: 'f', F: f}
}

// ordered reports whether the values of type parameter t have an order.
func ordered(t types.Type) bool {
	tp, ok := types.Unalias(t).(*types.TypeParam)
	if !ok {
		return false
	}
	s := tstr(tp.Constraint())
	return strings.Contains(s, "Ordered") || strings.Contains(s, "Integer") || strings.Contains(s, "Float") || strings.Contains(s, "igned")
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, tb := basicOf(from), basicOf(to)
	if x.H.Conv != nil {
		if r, ok := x.H.Conv(st, v, from, to); ok {
			return r
		}
	}
	if isInt(from) && isInt(to) {
		return VNum{x.convInt(st, x.num(v), to)}
	}
	if (isTP(from) || isTP(to)) && !types.Identical(from, to) {
		return x.termV(VTerm{Fn: "conv:" + tstr(to), Args: []Val{x.unTag(v)}}, to)
	}
	if fb != nil && fb.Kind() == types.UnsafePointer || tb != nil && tb.Kind() == types.UnsafePointer {
		return v
	}
	fs, _ := under(from).(*types.Slice)
	ts, _ := under(to).(*types.Slice)
	switch {
	case isStr(from) && isStr(to):
		return v
	case isStr(from) && ts != nil:
		k := "bytes"
		if isInt(ts.Elem()) && basicOf(ts.Elem()).Kind() == types.Int32 {
			k = "runes"
		}
		b := x.base(k+"("+x.key(v)+")", ts.Elem())
		n := x.strLen(st, v)
		if k == "runes" {
			n = S(x.ST.Intern("runes:"+x.key(v), "runes", big0, maxLen))
		}
		return x.newSlice(st, Seq{{Kind: PSeg, B: b, From: K(0), To: n}}, n, n, ts.Elem())
	case fs != nil && isStr(to):
		return VTerm{Fn: "string", Args: []Val{x.snapshot(st, v)}, T: to}
	case types.Identical(under(from), under(to)):
		return v
	}
	if fb != nil && tb != nil {
		if n, ok := v.(VNum); ok && tb.Info()&types.IsFloat != 0 {
			if c, ok := n.L.constInt(); ok && c > -1<<24 && c < 1<<24 {
				return x.constant(ssa.NewConst(constant.MakeInt64(c), to), to)
			}
		}
		return x.termV(VTerm{Fn: "conv:" + tstr(to), Args: []Val{x.unTag(v)}}, to)
	}
	x.fail("conversion %s to %s", from, to)
	return nil
}

// convInt truncates or sign-changes; exact when in range.
func (x *Exec) convInt(st *State, l Lin, to types.Type) Lin {
	lo, hi := intRange(to)
	if x.known(st, GE(l, KB(lo))) && x.known(st, LE(l, KB(hi))) {
		return l
	}
	bits, signed := intBits(basicOf(to))
	if bits < 64 {
		// as a linear remainder, so that splitting into bytes can be undone
		m := pow2(bits)
		if !signed {
			return l.Sub(x.ST.divFloor(l, m).Mul(m))
		}
		h := pow2(bits - 1)
		return l.Sub(x.ST.divFloor(l.Add(KB(h)), m).Mul(m))
	}
	return x.wrap(st, l, to)
}

func (x *Exec) strLen(st *State, v Val) Lin {
	if t, ok := v.(VTerm); ok && strings.HasPrefix(t.Fn, "str:") {
		s, err := unquote(t.Fn[4:])
		if err == nil {
			return K(int64(len(s)))
		}
	}
	return S(x.ST.Intern("strlen:"+x.key(v), "len("+x.show(v)+")", big0, maxLen))
}
