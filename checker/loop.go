package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInv struct {
	st    *State
	slots []Lin
	sig   map[Sym]bool
	joins int
}

type loopCtx struct {
	l        *loopInfo
	inv      map[string]*loopInv
	ver      map[string]int
	prov     []prov
	objFloor int
	uniqFl   int
	symFl    Sym
	objIDs   []int
	uniqIDs  []int
	arrivals int
}

type arrived struct {
	st  *State
	key string
	ver int
}

var debugLoops = os.Getenv("VDEBUG") != ""

func (x *Exec) arrive(ctx *loopCtx, st *State, head *ssa.BasicBlock) []arrived {
	first := ctx.arrivals == 0
	if first {
		ctx.symFl = Sym(len(x.ST.info))
	}
	ctx.arrivals++
	if ctx.arrivals > 3000 {
		x.fail("loop in %s does not settle", head.Parent())
	}
	// normalising may need case splits
	var res []arrived
	rs := x.fork(st, func(s *State) []Ret {
		fr := s.top()
		live := fr.fi.live[head.Index]
		for i := range fr.env {
			if !live[i] {
				fr.env[i] = nil
			}
		}
		if x.H.Head != nil {
			x.H.Head(s, waits(fr.fi, head))
		}
		x.foldEvents(s)
		x.foldLists(s)
		x.normState(s)
		s.marks[len(s.marks)-1] = len(s.trace)
		return []Ret{{}}
	})
	for _, r := range rs {
		if r.pan != nil {
			x.fail("panic while normalising")
		}
		s := r.st
		w := &walker{x: x, objFloor: ctx.objFloor, uniqFl: ctx.uniqFl}
		w.state(s)
		key := w.sb.String()
		if x.H.Peel > 0 {
			for _, in := range head.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if v, ok := s.top().env[s.top().fi.idx[ph]].(VNum); ok && v.L.isConst() && v.L.K.Sign() >= 0 && v.L.K.Cmp(big.NewInt(x.H.Peel)) <= 0 {
					key += fmt.Sprintf(";%s=%s", ph.Name(), v.L.K)
				}
			}
		}
		if x.H.Part != nil {
			key += x.H.Part(s)
		}
		s = x.rename(ctx, s, w)
		inv := ctx.inv[key]
		if inv == nil {
			if len(ctx.inv) > 40 {
				x.fail("loop in %s: too many shapes", head.Parent())
			}
			inv = &loopInv{st: s, sig: map[Sym]bool{}}
			inv.slots, _ = x.slots(ctx, s)
			ctx.inv[key] = inv
			ctx.ver[key] = 1
			if debugLoops {
				fmt.Printf("== loop %s b%d new shape\n%s\n", head.Parent().Name(), head.Index, x.showState(s))
			}
			res = append(res, arrived{s.clone(), key, 1})
			continue
		}
		lower := false
		if x.H.Peel > 0 {
			inv.st, s, lower = x.weaken(ctx, inv.st, s)
			inv.slots, _ = x.slots(ctx, inv.st)
		}
		if !lower && x.included(ctx, inv, s) {
			continue
		}
		inv.joins++
		if inv.joins > 40 {
			x.fail("loop in %s: no stable invariant", head.Parent())
		}
		x.njoins++
		x.join(ctx, inv, s)
		ctx.ver[key]++
		if debugLoops {
			fmt.Printf("== loop %s b%d joined\n%s\n", head.Parent().Name(), head.Index, x.showState(inv.st))
		}
		res = append(res, arrived{inv.st.clone(), key, ctx.ver[key]})
	}
	return res
}

// slots lists the numeric slots of a state in walk order.
func (x *Exec) slots(ctx *loopCtx, s *State) ([]Lin, string) {
	var out []Lin
	w := &walker{x: x, objFloor: ctx.objFloor, uniqFl: ctx.uniqFl, lin: func(l Lin) Lin {
		out = append(out, l)
		return l
	}}
	w.state(s)
	return out, w.sb.String()
}

// weaken lowers the witnesses of one state to those of the other, in both.
func (x *Exec) weaken(ctx *loopCtx, a, b *State) (*State, *State, bool) {
	var wa, wb []Lin
	scan := func(s *State, out *[]Lin) {
		w := &walker{x: x, objFloor: ctx.objFloor, uniqFl: ctx.uniqFl}
		w.lin = func(l Lin) Lin {
			if w.inWit {
				*out = append(*out, l)
			}
			return l
		}
		w.state(s)
	}
	scan(a, &wa)
	if len(wa) == 0 {
		return a, b, false
	}
	scan(b, &wb)
	lower := false
	for i := range wa {
		lower = lower || wb[i].K.Cmp(wa[i].K) < 0
	}
	set := func(s *State) *State {
		i := 0
		w := &walker{x: x, objFloor: ctx.objFloor, uniqFl: ctx.uniqFl}
		w.lin = func(l Lin) Lin {
			if !w.inWit {
				return l
			}
			p, q := wa[i], wb[i]
			i++
			if p.K.Cmp(q.K) < 0 {
				return p
			}
			return q
		}
		return w.state(s)
	}
	return set(a), set(b), lower
}

func (x *Exec) withSlots(ctx *loopCtx, s *State, slots []Lin) *State {
	i := 0
	w := &walker{x: x, objFloor: ctx.objFloor, uniqFl: ctx.uniqFl, lin: func(l Lin) Lin {
		r := slots[i]
		i++
		return r
	}}
	return w.state(s)
}

// rename gives objects and tokens made since the loop began canonical names.
func (x *Exec) rename(ctx *loopCtx, s *State, w *walker) *State {
	om := map[int]int{}
	k := 0
	for _, id := range w.objList {
		if id < ctx.objFloor || x.globID[id] {
			continue
		}
		if k >= len(ctx.objIDs) {
			x.nobj++
			ctx.objIDs = append(ctx.objIDs, x.nobj)
		}
		om[id] = ctx.objIDs[k]
		k++
	}
	um := map[int]int{}
	for u, n := range w.uniqNum {
		for n >= len(ctx.uniqIDs) {
			x.nuniq++
			ctx.uniqIDs = append(ctx.uniqIDs, x.nuniq)
		}
		um[u] = ctx.uniqIDs[n]
	}
	r := &walker{x: x, raw: true, ren: om, uren: um}
	n := &State{objs: map[int]*Obj{}, cons: s.cons, facts: map[string]factVal{}, ghost: map[string]Val{}, panics: s.panics, marks: s.marks}
	for _, f := range s.frames {
		g := *f
		g.env = make([]Val, len(f.env))
		for i, v := range f.env {
			if v != nil {
				g.env[i] = r.v(v)
			}
		}
		g.bind = r.vals(f.bind)
		g.defers = nil
		for _, d := range f.defers {
			d.fn = r.v(d.fn)
			d.args = r.vals(d.args)
			g.defers = append(g.defers, d)
		}
		n.frames = append(n.frames, &g)
	}
	n.trace = r.seq(s.trace)
	for _, l := range s.locks {
		n.locks = append(n.locks, lockEnt{r.v(l.Ptr), l.Mode})
	}
	for _, o := range s.ops {
		n.ops = append(n.ops, opStore{r.v(o.Ptr), o.Path, r.v(o.V)})
	}
	for k, v := range s.ghost {
		n.ghost[k] = r.v(v)
	}
	for _, id := range w.objList {
		if o := s.objs[id]; o != nil {
			n.objs[r.rn(id)] = r.objBody(o)
		}
	}
	for _, p := range s.pooled {
		if _, ok := w.objNum[p]; ok && s.objs[p] != nil {
			n.pooled = append(n.pooled, r.rn(p))
		}
	}
	for _, fv := range s.facts {
		ok := true
		scan := &walker{x: x, raw: true}
		scanVals(fv.F.Args, func(v Val) {
			switch v := v.(type) {
			case VTerm:
				if v.Uniq >= ctx.uniqFl {
					if _, have := um[v.Uniq]; !have {
						ok = false
					}
				}
			case VPtr:
				if v.Obj >= ctx.objFloor && !x.globID[v.Obj] {
					if _, have := om[v.Obj]; !have {
						ok = false
					}
				}
			}
		})
		_ = scan
		if ok {
			f := r.fact(fv.F)
			n.facts[x.factKey(f)] = factVal{f, fv.V}
		}
	}
	return n
}

func scanVals(vs []Val, f func(Val)) {
	for _, v := range vs {
		scanVal(v, f)
	}
}

func scanVal(v Val, f func(Val)) {
	if v == nil {
		return
	}
	f(v)
	switch v := v.(type) {
	case VStruct:
		scanVals(v.F, f)
	case VTuple:
		scanVals(v.F, f)
	case VFunc:
		scanVals(v.Bind, f)
	case VIface:
		scanVal(v.V, f)
	case VTerm:
		scanVals(v.Args, f)
	case VArr:
		for _, p := range v.C {
			scanVal(p.V, f)
		}
	case VBool:
		scanVals(v.B.F.Args, f)
	}
}

// linsOf visits every numeric expression inside v.
func (x *Exec) linsOf(vs []Val, f func(Lin)) {
	w := walker{x: x, raw: true, lin: func(l Lin) Lin { f(l); return l }}
	w.vals(vs)
}

func (x *Exec) included(ctx *loopCtx, inv *loopInv, s *State) bool {
	ns, _ := x.slots(ctx, s)
	if len(ns) != len(inv.slots) {
		panic("slot mismatch")
	}
	m := map[Sym]Lin{}
	for i, l := range inv.slots {
		if sy, ok := l.isSym(); ok && inv.sig[sy] {
			if _, have := m[sy]; !have {
				m[sy] = ns[i]
			}
		}
	}
	for i, l := range inv.slots {
		if !x.eqLin(s, l.SubstMap(m), ns[i]) {
			return false
		}
	}
	have := map[string]bool{}
	for _, c := range s.cons {
		have[conKey(c)] = true
	}
	for _, c := range inv.st.cons {
		d := Con{c.L.SubstMap(m), c.Eq}
		if have[conKey(d)] {
			continue
		}
		if !x.known(s, d) {
			return false
		}
	}
	for k, fv := range inv.st.facts {
		if o, ok := s.facts[k]; !ok || o.V != fv.V {
			return false
		}
	}
	return true
}

func conKey(c Con) string { return fmt.Sprintf("%v%s", c.Eq, c.L.Key()) }

func (x *Exec) join(ctx *loopCtx, inv *loopInv, s *State) {
	ns, _ := x.slots(ctx, s)
	rigid := func(l Lin) bool {
		for _, t := range l.T {
			if t.S >= ctx.symFl && !inv.sig[t.S] {
				return false
			}
		}
		return true
	}
	c1 := append([]Con(nil), inv.st.cons...)
	c2 := append([]Con(nil), s.cons...)
	slots := make([]Lin, len(ns))
	sig := map[Sym]bool{}
	keep := map[Sym]bool{}
	memo := map[string]Sym{}
	for i := range ns {
		a, b := inv.slots[i], ns[i]
		if a.Eq(b) && rigid(a) {
			slots[i] = a
			for _, t := range a.T {
				if inv.sig[t.S] {
					sig[t.S] = true
				}
				keep[t.S] = true
			}
			continue
		}
		k := a.Key() + "|" + b.Key()
		sy, ok := memo[k]
		if !ok {
			sy = x.ST.Fresh(fmt.Sprintf("v%d", len(x.ST.info)), nil, nil)
			memo[k] = sy
			c1 = append(c1, EQ(S(sy), a))
			c2 = append(c2, EQ(S(sy), b))
		}
		slots[i] = S(sy)
		sig[sy] = true
		keep[sy] = true
	}
	for _, cs := range [][]Con{c1, c2} {
		for _, c := range cs {
			for _, t := range c.L.T {
				if t.S < ctx.symFl && !x.ST.info[t.S].weak {
					keep[t.S] = true
				}
			}
		}
	}
	for _, l := range append(append([]Lin(nil), ns...), inv.slots...) {
		for _, t := range l.T {
			if t.S < ctx.symFl {
				keep[t.S] = true
			}
		}
	}
	p1 := x.ST.project(c1, keep)
	p2 := x.ST.project(c2, keep)
	eqs := func(p []Con) []Con {
		var r []Con
		for _, c := range p {
			if c.Eq {
				r = append(r, c)
			} else if x.ST.entailsGE(p, c.L.Neg()) {
				r = append(r, Con{c.L, true})
			}
		}
		return r
	}
	e1, e2 := eqs(p1), eqs(p2)
	vs := map[Sym]bool{}
	for _, es := range [][]Con{e1, e2} {
		for _, c := range es {
			for _, t := range c.L.T {
				vs[t.S] = true
			}
		}
	}
	var vars []Sym
	for v := range vs {
		vars = append(vars, v)
	}
	// rigid symbols last, so that new symbols are solved for
	sort.Slice(vars, func(i, j int) bool { return vars[i] > vars[j] })
	hull := affineHull(e1, e2, vars)
	var out []Con
	seen := map[string]bool{}
	add := func(c Con) {
		n, ok := c.norm()
		if !ok || len(n.L.T) == 0 {
			return
		}
		if k := conKey(n); !seen[k] {
			seen[k] = true
			out = append(out, n)
		}
	}
	for _, c := range hull {
		add(c)
	}
	// substitute new symbols by their affine definitions
	sub := map[Sym]Lin{}
	for {
		done := true
		for i, c := range out {
			if !c.Eq {
				continue
			}
			var pick Sym
			for _, t := range c.L.T {
				if sig[t.S] && new(big.Int).Abs(t.C).Cmp(big1) == 0 && t.S > pick {
					if _, isNew := findSym(memo, t.S); isNew {
						pick = t.S
					}
				}
			}
			if pick == 0 {
				continue
			}
			co := c.L.coef(pick)
			by := c.L.Subst(pick, K(0))
			if co.Sign() > 0 {
				by = by.Neg()
			}
			for k, v := range sub {
				sub[k] = v.Subst(pick, by)
			}
			sub[pick] = by
			delete(sig, pick)
			rest := append([]Con(nil), out[:i]...)
			for _, d := range append(rest, out[i+1:]...) {
				_ = d
			}
			var no []Con
			for j, d := range out {
				if j == i {
					continue
				}
				n, ok := Con{d.L.Subst(pick, by), d.Eq}.norm()
				if ok && len(n.L.T) > 0 {
					no = append(no, n)
				}
			}
			out = no
			done = false
			break
		}
		if done {
			break
		}
	}
	ap := func(c Con) Con { return Con{c.L.SubstMap(sub), c.Eq} }
	seen = map[string]bool{}
	for _, c := range out {
		seen[conKey(c)] = true
	}
	tryBoth := func(l Lin) {
		if x.ST.entailsGE(p1, l) && x.ST.entailsGE(p2, l) {
			add(ap(Con{L: l}))
		}
	}
	cand := func(p, other []Con, both bool) {
		for _, c := range p {
			if x.ST.entailsGE(other, c.L) {
				add(ap(Con{L: c.L}))
			}
			if c.Eq && x.ST.entailsGE(other, c.L.Neg()) {
				add(ap(Con{L: c.L.Neg()}))
			}
		}
	}
	cand(p1, p2, true)
	if inv.joins <= 2 {
		cand(p2, p1, true)
	}
	// difference templates between the changing symbols
	var ch []Sym
	for sy := range sig {
		ch = append(ch, sy)
	}
	sort.Slice(ch, func(i, j int) bool { return ch[i] < ch[j] })
	// and the other symbols of the state
	oth := map[Sym]bool{}
	for _, l := range slots {
		for _, t := range l.T {
			if !sig[t.S] {
				if _, isNew := findSym(memo, t.S); !isNew {
					oth[t.S] = true
				}
			}
		}
	}
	for _, c := range c1 {
		if len(oth) > 10 {
			break
		}
		for _, t := range c.L.T {
			if t.S < ctx.symFl && !x.ST.info[t.S].weak {
				oth[t.S] = true
			}
		}
	}
	var os []Sym
	for o := range oth {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
	tight := func(l Lin) {
		for _, k := range []int64{1, 0, -1} {
			n := len(out)
			tryBoth(l.AddI(-k))
			if len(out) > n {
				return
			}
		}
	}
	for _, b := range os {
		tight(S(b))
	}
	if len(ch) <= 8 {
		for _, a := range ch {
			for _, b := range ch {
				if a != b {
					tight(S(a).Sub(S(b)))
				}
			}
			for _, b := range os {
				tight(S(a).Sub(S(b)))
				tight(S(b).Sub(S(a)))
			}
			tight(S(a))
		}
	}
	x.pieceLens(s, func(i int) bool { return false }, slots, tryBoth)
	// sizes are bounded by the memory, and neighbouring slots, such as a slice's
	// length and capacity, may be ordered
	for i := range slots {
		if !slots[i].isConst() && !inv.slots[i].Eq(ns[i]) {
			tryBoth(KB(pow2(52)).Sub(slots[i]))
		}
		if i == 0 {
			continue
		}
		if d := slots[i].Sub(slots[i-1]); !d.isConst() && !(inv.slots[i].Eq(ns[i]) && inv.slots[i-1].Eq(ns[i-1])) {
			tryBoth(d)
		}
	}
	x.quotients(ns, slots, tryBoth)
	x.quotients(inv.slots, slots, tryBoth)
	for i := range slots {
		slots[i] = slots[i].SubstMap(sub)
	}
	// what the inclusion test could not confirm would never settle
	m := map[Sym]Lin{}
	for i, l := range slots {
		if sy, ok := l.isSym(); ok && sig[sy] {
			if _, have := m[sy]; !have {
				m[sy] = ns[i]
			}
		}
	}
	sure := out[:0:0]
	for _, c := range out {
		if x.known(s, Con{c.L.SubstMap(m), c.Eq}) {
			sure = append(sure, c)
		}
	}
	sure = x.reduce(sure)
	n := x.withSlots(ctx, s, slots)
	n.cons = sure
	n.pooled = inv.st.pooled
	n.facts = map[string]factVal{}
	for k, fv := range inv.st.facts {
		if o, ok := s.facts[k]; ok && o.V == fv.V {
			good := true
			x.linsOf(fv.F.Args, func(l Lin) {
				for _, t := range l.T {
					if t.S >= ctx.symFl && !sig[t.S] {
						good = false
					}
				}
			})
			if good {
				n.facts[k] = fv
			}
		}
	}
	inv.st = n
	inv.slots, _ = x.slots(ctx, n)
	inv.sig = sig
}

// quotients offers what is known of a value that is the quotient of another, or
// of the sum of two others.
func (x *Exec) quotients(vals, slots []Lin, f func(Lin)) {
	if len(vals) > 80 {
		return
	}
	for q, v := range vals {
		if len(v.T) != 1 || v.T[0].C.Cmp(big1) != 0 {
			continue
		}
		dt, ok := x.ST.info[v.T[0].S].tag.(divTag)
		if !ok {
			continue
		}
		dq := slots[q].Sub(KB(v.K)).Mul(dt.d)
		offer := func(sum Lin) {
			r := sum.Sub(dq)
			f(r)
			f(r.Neg().Add(KB(dt.d)).AddI(-1))
		}
		for i, a := range vals {
			if i == q || slots[i].isConst() {
				continue
			}
			if a.Eq(dt.a) {
				offer(slots[i])
				continue
			}
			for j := i + 1; j < len(vals); j++ {
				if j != q && a.Add(vals[j]).Eq(dt.a) {
					offer(slots[i].Add(slots[j]))
				}
			}
		}
	}
}

// pieceLens offers the lengths of the pieces of a state, over the slot values.
func (x *Exec) pieceLens(s *State, _ func(int) bool, slots []Lin, f func(Lin)) {
	i := 0
	w := &walker{x: x, raw: true}
	w.lin = func(l Lin) Lin {
		r := slots[i]
		i++
		return r
	}
	w.piece = func(p Piece) {
		if p.Kind != POne {
			f(p.Len())
		}
	}
	w.state(s)
}

func findSym(m map[string]Sym, s Sym) (string, bool) {
	for k, v := range m {
		if v == s {
			return k, true
		}
	}
	return "", false
}

// reduce drops constraints implied by the others.
func (x *Exec) reduce(cs []Con) []Con {
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].Eq && !cs[j].Eq })
	for i := len(cs) - 1; i >= 0; i-- {
		if cs[i].Eq {
			continue
		}
		rest := append(append([]Con{}, cs[:i]...), cs[i+1:]...)
		if x.ST.entails(rest, cs[i]) {
			cs = rest
		}
	}
	return cs
}

func (x *Exec) normState(s *State) {
	for id, o := range s.objs {
		switch o.Kind {
		case OMem:
			if nv := x.normVal(s, o.V); nv != nil {
				n := *o
				n.V = nv
				s.objs[id] = &n
			}
		case ORun:
			n := *o
			n.C = x.normSeq(s, o.C)
			s.objs[id] = &n
		}
	}
	// runs that are certainly empty
	for ch := true; ch; {
		ch = false
		for _, id := range objIDs(s) {
			o := s.objs[id]
			if o.Kind == ORun && len(o.C) == 0 {
				x.substObj(s, id, o.Next)
				ch = true
				break
			}
		}
	}
	if len(s.facts) > 0 || len(s.trace) > 0 {
		for id, o := range s.objs {
			if o.Kind == OMem {
				if nv := x.filtVal(s, o.V); nv != nil {
					n := *o
					n.V = nv
					s.objs[id] = &n
				}
			}
		}
		x.mergeAnn(s)
	}
}

func objIDs(s *State) []int {
	var r []int
	for id := range s.objs {
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

func (x *Exec) normVal(s *State, v Val) Val {
	switch v := v.(type) {
	case VArr:
		return VArr{x.normSeq(s, v.C), v.N}
	case VStruct:
		var f []Val
		for i, e := range v.F {
			if n := x.normVal(s, e); n != nil {
				if f == nil {
					f = append([]Val(nil), v.F...)
				}
				f[i] = n
			}
		}
		if f != nil {
			return VStruct{f}
		}
	}
	return nil
}

// ---- events

// tmplIndex finds the index the values of a group of events run over.
func (x *Exec) tmplIndex(vs []Val) (Lin, bool) {
	var t Lin
	found := false
	scanVals(vs, func(v Val) {
		if e, ok := v.(VElem); ok && !found {
			t, found = e.Idx, true
		}
	})
	return t, found
}

// tmpl abstracts index t from v.
func (x *Exec) tmpl(v Val, t Lin) Val {
	switch v := v.(type) {
	case VElem:
		d := v.Idx.Sub(t)
		if d.isConst() {
			return VElem{v.B, S(0).Add(d)}
		}
		return v
	case VNum:
		d := v.L.Sub(t)
		if d.isConst() && (d.K.Sign() == 0 || !t.isConst()) {
			return VNum{S(0).Add(d)}
		}
		return v
	case VTerm:
		if len(v.Args) == 0 {
			return v
		}
		a := make([]Val, len(v.Args))
		for i := range a {
			a[i] = x.tmpl(v.Args[i], t)
		}
		v.Args = a
		return v
	case VTuple:
		a := make([]Val, len(v.F))
		for i := range a {
			a[i] = x.tmpl(v.F[i], t)
		}
		return VTuple{a}
	case VStruct:
		a := make([]Val, len(v.F))
		for i := range a {
			a[i] = x.tmpl(v.F[i], t)
		}
		return VStruct{a}
	case VIface:
		return VIface{v.T, x.tmpl(v.V, t)}
	}
	return v
}

func (x *Exec) foldEvents(s *State) {
	if len(s.marks) == 0 {
		return
	}
	mark := s.marks[len(s.marks)-1]
	if mark > len(s.trace) {
		mark = len(s.trace)
	}
	if x.conc {
		s.trace = nil
		return
	}
	group := s.trace[mark:]
	if len(group) == 0 {
		return
	}
	var evs []Val
	for _, p := range group {
		if p.Kind != POne {
			return
		}
		evs = append(evs, p.V)
	}
	t, ok := x.tmplIndex(evs)
	pre := s.trace[:mark:mark]
	if !ok {
		// no index: repetitions of the same group
		if len(evs) == 1 {
			s.trace = append(pre, Piece{Kind: PRep, V: evs[0], N: K(1)})
		} else {
			s.trace = append(pre, Piece{Kind: PRep, V: VTuple{evs}, N: K(1)})
		}
		if k := len(s.trace); k >= 2 && s.trace[k-2].Kind == PRep && x.key(s.trace[k-2].V) == x.key(s.trace[k-1].V) {
			q := s.trace[k-2]
			q.N = q.N.AddI(1)
			s.trace = append(s.trace[:k-2:k-2], q)
		}
		return
	}
	var ts []Val
	for _, e := range evs {
		ts = append(ts, x.tmpl(e, t))
	}
	var V Val = VTuple{ts}
	p := Piece{Kind: PEv, V: V, From: t, To: t.AddI(1)}
	var anns []annEnt
	for _, fv := range s.facts {
		if fv.F.Pred != "is" && fv.F.Pred != "nil" || len(fv.F.Args) != 1 {
			continue
		}
		e, ok := fv.F.Args[0].(VElem)
		if !ok || !x.eqLin(s, e.Idx, t) {
			continue
		}
		if !strings.HasPrefix(e.B.Name, "res") {
			continue
		}
		anns = append(anns, annEnt{Fact{fv.F.Pred, []Val{VElem{e.B, S(0)}}}, fv.V})
	}
	sort.Slice(anns, func(i, j int) bool { return x.factKey(anns[i].F) < x.factKey(anns[j].F) })
	p.Ann = anns
	s.trace = append(pre, p)
	x.mergeEv(s, false)
}

func (x *Exec) annKey(p Piece) string {
	var b strings.Builder
	for _, a := range p.Ann {
		fmt.Fprintf(&b, "%s=%v;", x.factKey(a.F), a.V)
	}
	return b.String()
}

// mergeEv merges adjacent event segments.
func (x *Exec) mergeEv(s *State, any bool) {
	var out Seq
	for _, p := range s.trace {
		if p.Kind == PEv && len(out) > 0 {
			q := out[len(out)-1]
			if q.Kind == PEv && x.key(q.V) == x.key(p.V) && x.eqLin(s, q.To, p.From) {
				if x.annKey(q) == x.annKey(p) {
					q.To = p.To
					out[len(out)-1] = q
					continue
				}
				if any {
					q.To = p.To
					var ann []annEnt
					for _, a := range q.Ann {
						for _, b := range p.Ann {
							if a.V == b.V && x.factKey(a.F) == x.factKey(b.F) {
								ann = append(ann, a)
							}
						}
					}
					q.Ann = ann
					out[len(out)-1] = q
					continue
				}
			}
		}
		out = append(out, p)
	}
	s.trace = out
}

// mergeAnn forgets the results of events once they are summarised by a
// filtered segment, or when there are too many segments to keep.
func (x *Exec) mergeAnn(s *State) {
	n := 0
	for _, p := range s.trace {
		if p.Kind == PEv {
			n++
		}
	}
	if n < 2 {
		return
	}
	last := s.trace[len(s.trace)-1]
	filt := false
	for _, o := range s.objs {
		if o.Kind == OMem {
			for _, c := range seqsOf(o.V) {
				for _, p := range c {
					if p.Kind == PFilt && last.Kind == PEv && x.eqLin(s, p.To, last.To) {
						filt = true
					}
				}
			}
		}
	}
	if filt || n > 3 {
		x.mergeEv(s, true)
	}
}

func seqsOf(v Val) []Seq {
	switch v := v.(type) {
	case VArr:
		return []Seq{v.C}
	case VStruct:
		var r []Seq
		for _, e := range v.F {
			r = append(r, seqsOf(e)...)
		}
		return r
	}
	return nil
}

// annFact looks up a fact about e in the annotations of event segments.
func (x *Exec) annFact(st *State, f Fact, e VElem) (bool, bool) {
	for _, p := range st.trace {
		if p.Kind != PEv {
			continue
		}
		for _, a := range p.Ann {
			te := a.F.Args[0].(VElem)
			if te.B != e.B || a.F.Pred != f.Pred || len(f.Args) != 1 {
				continue
			}
			if x.known(st, GE(e.Idx, p.From)) && x.known(st, LT(e.Idx, p.To)) {
				return a.V, true
			}
		}
	}
	return false, false
}

// truthOn finds how far from index i on the fact template keeps value val.
func (x *Exec) truthEnd(st *State, f Fact, i Lin, val bool) (Lin, bool) {
	te := f.Args[0].(VElem)
	for _, p := range st.trace {
		if p.Kind != PEv {
			continue
		}
		for _, a := range p.Ann {
			if a.V == val && x.factKey(a.F) == x.factKey(f) && x.known(st, GE(i, p.From)) && x.known(st, LT(i, p.To)) {
				return p.To, true
			}
		}
	}
	for _, fv := range st.facts {
		if fv.V == val && fv.F.Pred == f.Pred && len(fv.F.Args) == 1 {
			if e, ok := fv.F.Args[0].(VElem); ok && e.B == te.B && x.eqLin(st, e.Idx, i) {
				return i.AddI(1), true
			}
		}
	}
	return Lin{}, false
}

func (x *Exec) truthOn(st *State, f Fact, from, to Lin, val bool) bool {
	for n := 0; n < 6; n++ {
		if x.known(st, GE(from, to)) {
			return true
		}
		e, ok := x.truthEnd(st, f, from, val)
		if !ok {
			return false
		}
		from = e
	}
	return false
}

// factsAt lists the fact templates with a known value at index i.
func (x *Exec) factsAt(st *State, i Lin) []annEnt {
	var r []annEnt
	seen := map[string]bool{}
	add := func(a annEnt) {
		k := x.factKey(a.F)
		if !seen[k] {
			seen[k] = true
			r = append(r, a)
		}
	}
	for _, p := range st.trace {
		if p.Kind == PEv && len(p.Ann) > 0 && x.known(st, GE(i, p.From)) && x.known(st, LT(i, p.To)) {
			for _, a := range p.Ann {
				add(a)
			}
		}
	}
	var ks []string
	for k := range st.facts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fv := st.facts[k]
		if (fv.F.Pred == "is" || fv.F.Pred == "nil") && len(fv.F.Args) == 1 {
			if e, ok := fv.F.Args[0].(VElem); ok && strings.HasPrefix(e.B.Name, "res") && x.eqLin(st, e.Idx, i) {
				add(annEnt{Fact{fv.F.Pred, []Val{VElem{e.B, S(0)}}}, fv.V})
			}
		}
	}
	return r
}

func (x *Exec) filtVal(s *State, v Val) Val {
	switch v := v.(type) {
	case VArr:
		if c, ok := x.filtSeq(s, v.C); ok {
			return VArr{c, v.N}
		}
	case VStruct:
		var f []Val
		for i, e := range v.F {
			if n := x.filtVal(s, e); n != nil {
				if f == nil {
					f = append([]Val(nil), v.F...)
				}
				f[i] = n
			}
		}
		if f != nil {
			return VStruct{f}
		}
	}
	return nil
}

// filtSeq recognises the kept elements of a filtering loop.
func (x *Exec) filtSeq(s *State, c Seq) (Seq, bool) {
	if len(c) == 0 {
		return c, false
	}
	ch := false
	out := append(Seq{}, c...)
	zero := K(0)
	tryAt := func(prefix *Piece, p Piece) (Piece, bool) {
		e := p.From
		for _, a := range x.factsAt(s, e) {
			te := a.F.Args[0].(VElem)
			_ = te
			pr := &Pred{a.F, !a.V}
			switch {
			case prefix == nil:
				if x.known(s, GE(e, K(1))) && x.truthOn(s, a.F, zero, e, !a.V) {
					return Piece{Kind: PFilt, B: p.B, From: zero, To: e.AddI(1), N: K(1), Pred: pr}, true
				}
			case prefix.Kind == PSeg:
				if x.truthOn(s, a.F, zero, prefix.To, a.V) && x.truthOn(s, a.F, prefix.To, e, !a.V) {
					return Piece{Kind: PFilt, B: p.B, From: zero, To: e.AddI(1), N: prefix.To.AddI(1), Pred: pr}, true
				}
			case prefix.Kind == PFilt:
				if x.predKey(prefix.Pred) == x.predKey(pr) && x.truthOn(s, a.F, prefix.To, e, !a.V) {
					q := *prefix
					q.To = e.AddI(1)
					q.N = q.N.AddI(1)
					return q, true
				}
			}
		}
		return Piece{}, false
	}
	isOne := func(p Piece) bool { return p.Kind == PSeg && x.eqLin(s, p.Len(), K(1)) }
	if isOne(out[0]) && !x.eqLin(s, out[0].From, zero) {
		if q, ok := tryAt(nil, out[0]); ok {
			out[0] = q
			ch = true
		}
	}
	if len(out) >= 2 && isOne(out[1]) && out[0].B == out[1].B {
		if out[0].Kind == PSeg && x.eqLin(s, out[0].From, zero) || out[0].Kind == PFilt {
			pre := out[0]
			if q, ok := tryAt(&pre, out[1]); ok {
				out = append(Seq{q}, out[2:]...)
				ch = true
			}
		}
	}
	if out[0].Kind == PFilt {
		for n := 0; n < 4; n++ {
			e, ok := x.truthEnd(s, out[0].Pred.F, out[0].To, out[0].Pred.Neg)
			if !ok {
				break
			}
			out[0].To = e
			ch = true
		}
	}
	return out, ch
}

// filtUnfold rewrites a filtered segment whose first elements are known.
func (x *Exec) filtUnfold(st *State, p Piece) (Seq, bool) {
	if x.known(st, GE(p.From, p.To)) {
		return nil, true
	}
	if e, ok := x.truthEnd(st, p.Pred.F, p.From, !p.Pred.Neg); ok {
		if !x.known(st, LE(e, p.To)) {
			e = p.To
		}
		q := p
		q.From = e
		return Seq{{Kind: PSeg, B: p.B, From: p.From, To: e}, q}, true
	}
	if e, ok := x.truthEnd(st, p.Pred.F, p.From, p.Pred.Neg); ok {
		if !x.known(st, LE(e, p.To)) {
			e = p.To
		}
		q := p
		q.From = e
		return Seq{q}, true
	}
	// undecided emptiness of the range
	if !x.decideGE(st, p.To.Sub(p.From).AddI(-1)) {
		return nil, true
	}
	return nil, false
}

func (x *Exec) filtEmpty(st *State, p Piece) bool {
	return x.truthOn(st, p.Pred.F, p.From, p.To, p.Pred.Neg)
}

// ---- lists

func (x *Exec) nodeDesc(t types.Type) *NodeDesc {
	n, ok := types.Unalias(t).(*types.Named)
	if t == nil || !ok {
		return nil
	}
	for _, d := range x.nodes {
		if d.Named == n.Origin().Obj() {
			return d
		}
	}
	return nil
}

func (x *Exec) foldLists(s *State) {
	if len(x.nodes) == 0 {
		return
	}
	refs := map[int]int{}
	inner := map[int]bool{}
	count := func(v Val) {
		scanVal(v, func(v Val) {
			switch v := v.(type) {
			case VPtr:
				refs[v.Obj]++
				if len(v.Path) > 0 {
					inner[v.Obj] = true
				}
			case VSlice:
				refs[v.Obj]++
				inner[v.Obj] = true
			}
		})
	}
	// reachable objects only
	w := &walker{x: x, raw: true}
	w.state(s)
	for _, f := range s.frames {
		for _, v := range f.env {
			count(v)
		}
		for _, v := range f.bind {
			count(v)
		}
		for _, d := range f.defers {
			count(d.fn)
			for _, a := range d.args {
				count(a)
			}
		}
	}
	for _, p := range s.trace {
		count(p.V)
	}
	for _, g := range s.ghost {
		count(g)
	}
	for _, o := range s.ops {
		count(o.Ptr)
		count(o.V)
	}
	for _, id := range s.pooled {
		refs[id] += 2
	}
	live := map[int]bool{}
	for _, id := range w.objList {
		o := s.objs[id]
		if o == nil {
			continue
		}
		live[id] = true
		switch o.Kind {
		case OMem:
			count(o.V)
		case ORun:
			count(o.Next)
			for _, p := range o.C {
				count(p.V)
			}
		case OMap:
			for _, u := range o.M.Upd {
				count(u.K)
				count(u.V)
			}
		}
	}
	for id, o := range s.objs {
		if !live[id] || o.Kind != OMem || inner[id] {
			continue
		}
		d := x.nodeDesc(o.T)
		if d == nil {
			continue
		}
		sv, ok := o.V.(VStruct)
		if !ok || len(sv.F) != d.NF {
			continue
		}
		s.objs[id] = &Obj{Kind: ORun, T: o.T, C: one(sv.F[d.Data]), Next: sv.F[d.Next], ND: d}
	}
	for ch := true; ch; {
		ch = false
		for _, id := range objIDs(s) {
			o := s.objs[id]
			if !live[id] || o.Kind != ORun {
				continue
			}
			np, ok := o.Next.(VPtr)
			if !ok || len(np.Path) > 0 || np.Obj == id {
				continue
			}
			y := s.objs[np.Obj]
			if y == nil || y.Kind != ORun || refs[np.Obj] != 1 || inner[np.Obj] {
				continue
			}
			n := *o
			n.C = x.normSeq(s, seqCat(o.C, y.C))
			n.Next = y.Next
			s.objs[id] = &n
			delete(s.objs, np.Obj)
			ch = true
			break
		}
	}
}

// waits reports whether a loop receives or selects.
func waits(fi *fnInfo, head *ssa.BasicBlock) bool {
	seen := map[*ssa.Function]bool{fi.fn: true}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return true
				}
			case *ssa.Call:
				f := in.Call.StaticCallee()
				if f == nil || seen[f] || f.Package() != fi.fn.Package() {
					continue
				}
				seen[f] = true
				for _, c := range f.Blocks {
					if visit(c) {
						return true
					}
				}
			}
		}
		return false
	}
	for b := range fi.loops[head].body {
		if visit(b) {
			return true
		}
	}
	return false
}
