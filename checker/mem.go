package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func unquote(s string) (string, error) { return strconv.Unquote(s) }

// ---- sequences

func seqCat(a, b Seq) Seq {
	r := make(Seq, 0, len(a)+len(b))
	r = append(r, a...)
	return append(r, b...)
}

func one(v Val) Seq             { return Seq{{Kind: POne, V: v}} }
func seg(b *Base, f, t Lin) Seq { return Seq{{Kind: PSeg, B: b, From: f, To: t}} }

// seqSplit cuts s at pos, deciding where pos falls.
func (x *Exec) seqSplit(st *State, s Seq, pos Lin) (Seq, Seq) {
	for i := 0; i < len(s); i++ {
		if pos.isZero() {
			return s[:i:i], s[i:]
		}
		n := s[i].Len()
		if n.isZero() {
			continue
		}
		if x.decideGE(st, pos.Sub(n)) {
			pos = pos.Sub(n)
			continue
		}
		if !x.decideGE(st, pos.AddI(-1)) {
			// pos <= 0
			if !x.decideGE(st, pos) {
				x.fail("negative split position")
			}
			return s[:i:i], s[i:]
		}
		// strictly inside piece i
		p, q := s[i], s[i]
		switch s[i].Kind {
		case PSeg, PEv:
			p.To = p.From.Add(pos)
			q.From = p.To
		case PRev:
			p.To = p.From.Sub(pos)
			q.From = p.To
		case PRep, PMix:
			p.N = pos
			q.N = n.Sub(pos)
		default:
			x.fail("cannot split a filtered segment")
		}
		l := append(append(Seq{}, s[:i]...), p)
		r := append(Seq{q}, s[i+1:]...)
		return l, r
	}
	if !pos.isZero() && !x.eqLin(st, pos, K(0)) {
		if x.decideEQ(st, pos) {
			return s, nil
		}
		x.fail("split position past the end")
	}
	return s, nil
}

// seqHead takes the first element of s, which must not be empty.
func (x *Exec) seqHead(st *State, s Seq) (Val, Seq, bool) {
	for i := 0; i < len(s); i++ {
		p := s[i]
		if p.Kind == POne {
			return p.V, s[i+1:], true
		}
		if !x.decideGE(st, p.Len().AddI(-1)) {
			continue
		}
		q := p
		var v Val
		switch p.Kind {
		case PSeg:
			v = x.elem(p.B, p.From)
			q.From = p.From.AddI(1)
		case PRev:
			v = x.elem(p.B, p.From)
			q.From = p.From.AddI(-1)
		case PRep:
			v = p.V
			q.N = p.N.AddI(-1)
		case PMix:
			v = x.fresh("mix", p.B.Elem)
			q.N = p.N.AddI(-1)
		default:
			x.fail("element of a filtered segment")
		}
		return v, append(Seq{q}, s[i+1:]...), true
	}
	return nil, nil, false
}

func (x *Exec) seqGet(st *State, s Seq, i Lin) Val {
	_, r := x.seqSplit(st, s, i)
	v, _, ok := x.seqHead(st, r)
	if !ok {
		x.fail("element of an empty sequence")
	}
	return v
}

func (x *Exec) seqSet(st *State, s Seq, i Lin, v Val) Seq {
	l, r := x.seqSplit(st, s, i)
	_, r2, ok := x.seqHead(st, r)
	if !ok {
		x.fail("element of an empty sequence")
	}
	return seqCat(append(append(Seq{}, l...), Piece{Kind: POne, V: x.unTag(v)}), r2)
}

func (x *Exec) seqSub(st *State, s Seq, from, n Lin) Seq {
	_, r := x.seqSplit(st, s, from)
	l, _ := x.seqSplit(st, r, n)
	return l
}

// seqPut overwrites n elements from pos.
func (x *Exec) seqPut(st *State, s Seq, pos Lin, c Seq, n Lin) Seq {
	l, r := x.seqSplit(st, s, pos)
	_, r2 := x.seqSplit(st, r, n)
	return seqCat(seqCat(l, c), r2)
}

// normSeq merges adjacent pieces and drops provably empty ones.
func (x *Exec) normSeq(st *State, s Seq) Seq {
	var out Seq
	for _, p := range s {
		if p.Kind == POne {
			p.V = x.unTag(p.V)
			if e, ok := p.V.(VElem); ok {
				p = Piece{Kind: PSeg, B: e.B, From: e.Idx, To: e.Idx.AddI(1)}
			}
		}
		if p.Kind != POne {
			n := p.Len()
			if x.eqLin(st, n, K(0)) {
				continue
			}
		}
		for {
			if len(out) == 0 {
				out = append(out, p)
				break
			}
			q := out[len(out)-1]
			m, ok := x.mergePiece(st, q, p)
			if !ok {
				out = append(out, p)
				break
			}
			out = out[:len(out)-1]
			p = m
		}
	}
	// single-element segments of a reversed run
	return out
}

func witnessed(v Val) bool {
	if p, ok := v.(VPtr); ok {
		for _, e := range p.Path {
			if e.W {
				return true
			}
		}
	}
	return false
}

func (x *Exec) mergePiece(st *State, a, b Piece) (Piece, bool) {
	isOne := func(p Piece) bool { return x.eqLin(st, p.Len(), K(1)) }
	if witnessed(a.V) || witnessed(b.V) {
		return a, false // the number of copies would tell one loop state from another
	}
	switch {
	case a.Kind == PSeg && b.Kind == PSeg && a.B == b.B:
		if x.eqLin(st, a.To, b.From) {
			a.To = b.To
			return a, true
		}
		if isOne(a) && isOne(b) && x.eqLin(st, b.From, a.From.AddI(-1)) {
			return Piece{Kind: PRev, B: a.B, From: a.From, To: b.From.AddI(-1)}, true
		}
	case a.Kind == PRev && b.Kind == PRev && a.B == b.B && x.eqLin(st, a.To, b.From):
		a.To = b.To
		return a, true
	case a.Kind == PRev && b.Kind == PSeg && a.B == b.B && isOne(b) && x.eqLin(st, a.To, b.From):
		a.To = a.To.AddI(-1)
		return a, true
	case a.Kind == PSeg && b.Kind == PRev && a.B == b.B && isOne(a) && x.eqLin(st, b.From, a.From.AddI(-1)):
		b.From = a.From
		return b, true
	case a.Kind == PRep && b.Kind == PRep && x.key(a.V) == x.key(b.V):
		a.N = a.N.Add(b.N)
		return a, true
	case a.Kind == PRep && b.Kind == POne && x.key(a.V) == x.key(b.V):
		a.N = a.N.AddI(1)
		return a, true
	case a.Kind == POne && b.Kind == PRep && x.key(a.V) == x.key(b.V):
		b.N = b.N.AddI(1)
		return b, true
	case a.Kind == POne && b.Kind == POne && x.key(a.V) == x.key(b.V):
		if t, ok := a.V.(VTerm); ok && isEvent(t.Fn) {
			return a, false
		}
		return Piece{Kind: PRep, V: a.V, N: K(2)}, true
	case a.Kind == PMix && b.Kind == PMix:
		a.N = a.N.Add(b.N)
		return a, true
	case a.Kind == PFilt && b.Kind == PFilt && a.B == b.B && x.predKey(a.Pred) == x.predKey(b.Pred) && x.eqLin(st, a.To, b.From):
		a.To = b.To
		a.N = a.N.Add(b.N)
		return a, true
	}
	return a, false
}

func isEvent(fn string) bool {
	for _, p := range []string{"call:", "invoke:", "send", "recv", "go", "close", "lock", "unlock", "rlock", "runlock", "ext:", "mapset", "put", "get", "atomic:"} {
		if strings.HasPrefix(fn, p) {
			return true
		}
	}
	return false
}

func (x *Exec) predKey(p *Pred) string { return fmt.Sprintf("%v%s", p.Neg, x.factKey(p.F)) }

// seqEq decides whether a and b are the same sequence; it may split the state.
func (x *Exec) seqEq(st *State, a, b Seq) (bool, string) {
	a, b = x.normSeq(st, a), x.normSeq(st, b)
	for n := 0; n < 200; n++ {
		// drop empty heads
		if len(a) == 0 && len(b) == 0 {
			return true, ""
		}
		if len(a) == 0 || len(b) == 0 {
			r := a
			if len(a) == 0 {
				r = b
			}
			for _, p := range r {
				if p.Kind == POne || x.decideGE(st, p.Len().AddI(-1)) {
					if p.Kind == PFilt && x.filtEmpty(st, p) {
						continue
					}
					return false, "length differs by " + x.showSeq(r)
				}
			}
			return true, ""
		}
		p, q := a[0], b[0]
		if p.Kind != POne && p.Kind != PFilt && !x.decideGE(st, p.Len().AddI(-1)) {
			a = a[1:]
			continue
		}
		if q.Kind != POne && q.Kind != PFilt && !x.decideGE(st, q.Len().AddI(-1)) {
			b = b[1:]
			continue
		}
		if p.Kind == PFilt || q.Kind == PFilt {
			if p.Kind == PFilt && q.Kind == PFilt && p.B == q.B && x.predKey(p.Pred) == x.predKey(q.Pred) && x.eqLin(st, p.From, q.From) {
				if x.eqLin(st, p.To, q.To) {
					a, b = a[1:], b[1:]
					continue
				}
				return false, "filtered ranges differ: " + x.showSeq(a) + " / " + x.showSeq(b)
			}
			// a filter over annotated ranges unfolds
			if p.Kind == PFilt {
				if u, ok := x.filtUnfold(st, p); ok {
					a = seqCat(u, a[1:])
					continue
				}
			}
			if q.Kind == PFilt {
				if u, ok := x.filtUnfold(st, q); ok {
					b = seqCat(u, b[1:])
					continue
				}
			}
			return false, "filtered segment against " + x.showSeq(a) + " / " + x.showSeq(b)
		}
		same := false
		switch {
		case p.Kind == PSeg && q.Kind == PSeg && p.B == q.B, p.Kind == PRev && q.Kind == PRev && p.B == q.B,
			p.Kind == PEv && q.Kind == PEv && x.key(p.V) == x.key(q.V):
			same = x.decideEQ(st, p.From.Sub(q.From))
		case p.Kind == PRep && q.Kind == PRep:
			same = x.key(p.V) == x.key(q.V)
		}
		if same {
			var m Lin
			if x.decideGE(st, p.Len().Sub(q.Len())) {
				m = q.Len()
			} else {
				m = p.Len()
			}
			_, a = x.seqSplit(st, a, m)
			_, b = x.seqSplit(st, b, m)
			continue
		}
		if p.Kind == PEv || q.Kind == PEv {
			// compare instance by instance
			ua, ra := x.evHead(st, a)
			ub, rb := x.evHead(st, b)
			if len(ua) == len(ub) {
				ok := true
				for i := range ua {
					if !x.valEq(st, ua[i], ub[i]) {
						ok = false
					}
				}
				if ok {
					a, b = ra, rb
					continue
				}
			}
			return false, "events differ: " + x.showSeq(a) + " / " + x.showSeq(b)
		}
		va, ra, _ := x.seqHead(st, a)
		vb, rb, _ := x.seqHead(st, b)
		if !x.valEq(st, va, vb) {
			return false, x.show(va) + " instead of " + x.show(vb)
		}
		a, b = ra, rb
	}
	return false, "sequences could not be compared"
}

// evHead unfolds the first event group.
func (x *Exec) evHead(st *State, s Seq) ([]Val, Seq) {
	p := s[0]
	if p.Kind == POne {
		return []Val{p.V}, s[1:]
	}
	if p.Kind != PEv {
		x.fail("event expected")
	}
	v := x.instTmpl(p.V, p.From)
	q := p
	q.From = p.From.AddI(1)
	rest := s[1:]
	if !x.eqLin(st, q.Len(), K(0)) {
		rest = append(Seq{q}, rest...)
	}
	if t, ok := v.(VTuple); ok {
		if len(t.F) > 1 {
			var more Seq
			for _, e := range t.F[1:] {
				more = append(more, Piece{Kind: POne, V: e})
			}
			rest = seqCat(more, rest)
		}
		return t.F[:1], rest
	}
	return []Val{v}, rest
}

// instTmpl replaces the index placeholder by i.
func (x *Exec) instTmpl(v Val, i Lin) Val {
	w := walker{raw: true, x: x, lin: func(l Lin) Lin { return l.Subst(0, i) }}
	return w.v(v)
}

func (x *Exec) instFact(f Fact, i Lin) Fact {
	w := walker{raw: true, x: x, lin: func(l Lin) Lin { return l.Subst(0, i) }}
	return w.fact(f)
}

// valEq decides a == b as values (identity of terms and objects).
func (x *Exec) valEq(st *State, a, b Val) bool {
	a, b = x.unTag(a), x.unTag(b)
	if noFields(a) || noFields(b) {
		return true
	}
	switch av := a.(type) {
	case VNum:
		bv, ok := b.(VNum)
		if !ok {
			if e, ok := b.(VElem); ok {
				if n, ok := x.opaque(e, e.B.Elem).(VNum); ok {
					return x.decideEQ(st, av.L.Sub(n.L))
				}
			}
			return false
		}
		return x.decideEQ(st, av.L.Sub(bv.L))
	case VBool:
		bv, ok := b.(VBool)
		if !ok {
			if e, ok := b.(VElem); ok {
				bv, ok = x.opaque(e, e.B.Elem).(VBool)
				if !ok {
					return false
				}
			} else {
				return false
			}
		}
		if x.key(a) == x.key(bv) {
			return true
		}
		return x.decide(st, av.B) == x.decide(st, bv.B)
	case VElem:
		switch bv := b.(type) {
		case VElem:
			if av.B == bv.B {
				return x.decideEQ(st, av.Idx.Sub(bv.Idx))
			}
			return x.key(a) == x.key(b)
		case VNum, VBool:
			return x.valEq(st, b, a)
		}
		return x.knownEq(st, a, b)
	case VStruct:
		bv, ok := b.(VStruct)
		if !ok || len(av.F) != len(bv.F) {
			return false
		}
		for i := range av.F {
			if !x.valEq(st, av.F[i], bv.F[i]) {
				return false
			}
		}
		return true
	case VTuple:
		bv, ok := b.(VTuple)
		if !ok || len(av.F) != len(bv.F) {
			return false
		}
		for i := range av.F {
			if !x.valEq(st, av.F[i], bv.F[i]) {
				return false
			}
		}
		return true
	case VArr:
		bv, ok := b.(VArr)
		if !ok {
			return false
		}
		r, _ := x.seqEq(st, av.C, bv.C)
		return r
	case VIface:
		bv, ok := b.(VIface)
		return ok && types.Identical(av.T, bv.T) && x.valEq(st, av.V, bv.V)
	case VTerm:
		bv, ok := b.(VTerm)
		if ok && av.Fn == bv.Fn && av.Uniq == bv.Uniq && len(av.Args) == len(bv.Args) {
			for i := range av.Args {
				if !x.valEq(st, av.Args[i], bv.Args[i]) {
					return false
				}
			}
			return true
		}
		return x.knownEq(st, a, b)
	case VNil:
		switch b.(type) {
		case VTerm, VElem:
			v, ok := x.factOf(st, Fact{"nil", []Val{b}})
			return ok && v
		}
		_, ok := b.(VNil)
		return ok
	case VPtr:
		bv, ok := b.(VPtr)
		if !ok {
			return false
		}
		return x.decide(st, x.equal(st, av, bv, nil))
	case VSlice:
		bv, ok := b.(VSlice)
		return ok && av.Obj == bv.Obj && x.decideEQ(st, av.Off.Sub(bv.Off)) && x.decideEQ(st, av.Len.Sub(bv.Len))
	}
	return x.key(a) == x.key(b)
}

// noFields: all values of a struct type without fields are equal.
func noFields(v Val) bool {
	s, ok := v.(VStruct)
	return ok && len(s.F) == 0
}

// knownEq: equality established on this path.
func (x *Exec) knownEq(st *State, a, b Val) bool {
	ka, kb := x.key(a), x.key(b)
	if ka == kb {
		return true
	}
	if _, ok := b.(VNil); ok {
		v, ok := x.factOf(st, Fact{"nil", []Val{a}})
		return ok && v
	}
	if ka > kb {
		a, b = b, a
		ka, kb = kb, ka
	}
	if v, ok := x.factOf(st, Fact{"eq", []Val{a, b}}); ok && v {
		return true
	}
	if s, ok := x.ST.memo["cmp:"+ka+"|"+kb]; ok && x.known(st, EQ(S(s), K(0))) {
		return true
	}
	return false
}

// ---- paths into objects

func (x *Exec) field(st *State, v Val, i int, t types.Type) Val {
	switch v := v.(type) {
	case VStruct:
		return v.F[i]
	case VTerm, VElem:
		s, ok := under(t).(*types.Struct)
		if !ok {
			x.fail("field of %s", t)
		}
		return x.termV(VTerm{Fn: "." + s.Field(i).Name(), Args: []Val{v}}, s.Field(i).Type())
	}
	x.fail("field of %s", x.show(v))
	return nil
}

func (x *Exec) expand(v Val, t types.Type) Val {
	switch v.(type) {
	case VStruct:
		return v
	case VTerm, VElem:
		s, ok := under(t).(*types.Struct)
		if !ok {
			x.fail("expanding %s of type %s", x.show(v), t)
		}
		f := make([]Val, s.NumFields())
		for i := range f {
			f[i] = x.termV(VTerm{Fn: "." + s.Field(i).Name(), Args: []Val{v}}, s.Field(i).Type())
		}
		return VStruct{f}
	}
	return v
}

func fieldType(t types.Type, i int) types.Type {
	if s, ok := under(t).(*types.Struct); ok {
		return s.Field(i).Type()
	}
	return nil
}

// array is the content of an array; that of a small unknown one is spelt out.
func (x *Exec) array(v Val, t types.Type) (VArr, bool) {
	if a, ok := v.(VArr); ok {
		return a, true
	}
	if t == nil {
		t = termType(v)
	}
	if t == nil {
		return VArr{}, false
	}
	at, ok := under(t).(*types.Array)
	if _, term := v.(VTerm); !ok || !term || at.Len() > 16 {
		return VArr{}, false
	}
	var c Seq
	for i := int64(0); i < at.Len(); i++ {
		c = append(c, one(x.termV(VTerm{Fn: "at", Args: []Val{v, VNum{K(i)}}}, at.Elem()))...)
	}
	return VArr{c, K(at.Len())}, true
}

func (x *Exec) getPath(st *State, v Val, p []PE, t types.Type) Val {
	for _, e := range p {
		if e.Idx != nil {
			a, ok := x.array(v, t)
			if !ok {
				x.fail("array expected, have %s", x.show(v))
			}
			v = x.seqGet(st, a.C, *e.Idx)
			if t != nil {
				if at, ok := under(t).(*types.Array); ok {
					t = at.Elem()
				} else {
					t = nil
				}
			}
			continue
		}
		if s, ok := v.(VStruct); ok {
			v = s.F[e.F]
		} else {
			if t == nil {
				t = termType(v)
			}
			if t == nil {
				x.fail("field of untyped %s", x.show(v))
			}
			v = x.field(st, v, e.F, t)
		}
		if t != nil {
			t = fieldType(t, e.F)
		}
	}
	return v
}

func (x *Exec) setPath(st *State, v Val, p []PE, nv Val, t types.Type) Val {
	if len(p) == 0 {
		return nv
	}
	e := p[0]
	if e.Idx != nil {
		a, ok := x.array(v, t)
		if !ok {
			x.fail("array expected, have %s", x.show(v))
		}
		var et types.Type
		if t != nil {
			if at, ok := under(t).(*types.Array); ok {
				et = at.Elem()
			}
		}
		el := nv
		if len(p) > 1 {
			el = x.setPath(st, x.seqGet(st, a.C, *e.Idx), p[1:], nv, et)
		}
		return VArr{x.seqSet(st, a.C, *e.Idx, el), a.N}
	}
	s, ok := v.(VStruct)
	if !ok {
		if t == nil {
			t = termType(v)
		}
		if t == nil {
			x.fail("struct expected, have %s", x.show(v))
		}
		s = x.expand(v, t).(VStruct)
	}
	f := append([]Val(nil), s.F...)
	f[e.F] = x.setPath(st, f[e.F], p[1:], nv, fieldType2(t, e.F))
	return VStruct{f}
}

func fieldType2(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	return fieldType(t, i)
}

// ---- pointers

// runHead resolves a pointer to a list run: the run is known not empty, or
// the pointer is replaced by where the empty run leads.
func (x *Exec) runHead(st *State, p VPtr) Val {
	for {
		o := st.objs[p.Obj]
		if o == nil || o.Kind != ORun {
			return p
		}
		if len(p.Path) > 0 {
			return p
		}
		if x.runNonEmpty(st, o) {
			return p
		}
		n := o.Next
		x.substObj(st, p.Obj, n)
		np, ok := n.(VPtr)
		if !ok {
			return n
		}
		p = np
	}
}

func (x *Exec) runNonEmpty(st *State, o *Obj) bool {
	for _, q := range o.C {
		if q.Kind == POne || x.decideGE(st, q.Len().AddI(-1)) {
			return true
		}
	}
	return false
}

// substObj replaces every pointer to object id by v.
func (x *Exec) substObj(st *State, id int, v Val) {
	w := walker{raw: true, x: x, obj: func(i int) (Val, bool) {
		if i == id {
			return v, true
		}
		return nil, false
	}}
	for i, f := range st.frames {
		g := f.clone()
		for k, e := range g.env {
			if e != nil {
				g.env[k] = w.v(e)
			}
		}
		g.bind = w.vals(g.bind)
		for k := range g.defers {
			g.defers = append([]deferred(nil), g.defers...)
			g.defers[k].fn = w.v(g.defers[k].fn)
			g.defers[k].args = w.vals(g.defers[k].args)
		}
		nf := append([]*Frame(nil), st.frames...)
		nf[i] = g
		st.frames = nf
	}
	for k, o := range st.objs {
		st.objs[k] = w.objBody(o)
	}
	delete(st.objs, id)
	for k, g := range st.ghost {
		st.ghost[k] = w.v(g)
	}
	st.trace = w.seq(st.trace)
	for i := range st.locks {
		st.locks = append([]lockEnt(nil), st.locks...)
		st.locks[i].Ptr = w.v(st.locks[i].Ptr)
	}
	var ops []opStore
	for _, o := range st.ops {
		ops = append(ops, opStore{w.v(o.Ptr), o.Path, w.v(o.V)})
	}
	st.ops = ops
	w.sb.Reset()
}

// materialise turns the first node of a run into an ordinary object.
func (x *Exec) materialise(st *State, p VPtr) VPtr {
	o := st.objs[p.Obj]
	if o == nil || o.Kind != ORun {
		return p
	}
	hv := x.runHead(st, VPtr{Obj: p.Obj})
	hp, ok := hv.(VPtr)
	if !ok {
		panic(goPanic{"nil", "nil pointer dereference"})
	}
	o = st.objs[hp.Obj]
	if o.Kind != ORun {
		return VPtr{hp.Obj, p.Path}
	}
	v, rest, ok := x.seqHead(st, o.C)
	if !ok {
		x.fail("empty run")
	}
	rest = x.normSeq(st, rest)
	f := make([]Val, o.ND.NF)
	s := under(o.T).(*types.Struct)
	for i := range f {
		f[i] = x.zero(s.Field(i).Type())
	}
	f[o.ND.Data] = v
	if len(rest) > 0 {
		f[o.ND.Next] = VPtr{Obj: x.newObj(st, &Obj{Kind: ORun, T: o.T, C: rest, Next: o.Next, ND: o.ND})}
	} else {
		f[o.ND.Next] = o.Next
	}
	st.objs[hp.Obj] = &Obj{Kind: OMem, T: o.T, V: VStruct{f}}
	return VPtr{hp.Obj, p.Path}
}

func (x *Exec) fieldAddr(st *State, p Val, i int, pt types.Type) Val {
	switch p := p.(type) {
	case VPtr:
		if len(p.Path) == 0 {
			p = x.materialise(st, p)
		}
		return VPtr{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], PE{F: i})}
	case VNil:
		panic(goPanic{"nil", "nil pointer dereference"})
	case VTerm:
		if strings.HasPrefix(p.Fn, "&.") {
			return VTerm{Fn: fmt.Sprintf("%s.%d", p.Fn, i), Args: p.Args, NN: true, T: pt}
		}
	}
	if x.isNil(st, p) {
		panic(goPanic{"nil", "nil pointer dereference"})
	}
	return VTerm{Fn: fmt.Sprintf("&.%d", i), Args: []Val{p}, NN: true, T: pt}
}

func (x *Exec) load(st *State, p Val, t types.Type) Val {
	if x.H.Loaded != nil {
		if v, ok := x.H.Loaded(st, p, t); ok {
			return v
		}
	}
	if x.H.Load != nil {
		x.H.Load(st, p, t)
	}
	switch q := p.(type) {
	case VPtr:
		q = x.materialise(st, q)
		o := st.objs[q.Obj]
		if o == nil {
			x.fail("dangling object")
		}
		if o.Kind == OMap {
			x.fail("load through a map")
		}
		v := x.getPath(st, o.V, q.Path, o.T)
		if e, ok := v.(VElem); ok {
			return x.opaque(e, e.B.Elem)
		}
		return v
	case VNil:
		panic(goPanic{"nil", "nil pointer dereference"})
	case VTerm, VElem:
		base, path := opaqueAddr(q)
		if path == "" && x.isNil(st, base) {
			panic(goPanic{"nil", "nil pointer dereference"})
		}
		for i := len(st.ops) - 1; i >= 0; i-- {
			s := st.ops[i]
			if s.Path != path {
				if s.Path != "?" && (strings.HasPrefix(s.Path, path+".") || strings.HasPrefix(path, s.Path+".")) {
					if x.key(s.Ptr) == x.key(base) {
						x.fail("partial access to opaque memory")
					}
				}
				continue
			}
			if x.decide(st, x.equal(st, s.Ptr, base, nil)) {
				return s.V
			}
		}
		return x.termV(VTerm{Fn: "*" + path, Args: []Val{base}}, t)
	}
	x.fail("load through %s", x.show(p))
	return nil
}

func opaqueAddr(v Val) (Val, string) {
	if t, ok := v.(VTerm); ok && strings.HasPrefix(t.Fn, "&.") {
		return t.Args[0], t.Fn[1:]
	}
	return v, ""
}

func (x *Exec) store(st *State, p Val, v Val, t types.Type) {
	switch q := p.(type) {
	case VPtr:
		q = x.materialise(st, q)
		if x.H.Stored != nil && x.H.Stored(st, q, v) {
			return
		}
		if x.H.StoreVal != nil {
			v = x.H.StoreVal(st, q, v)
		}
		if x.H.Store != nil {
			x.H.Store(st, q, v)
		}
		o := st.objs[q.Obj]
		if o == nil {
			x.fail("dangling object")
		}
		n := *o
		n.V = x.setPath(st, o.V, q.Path, x.unTagIn(q, v), o.T)
		st.objs[q.Obj] = &n
		return
	case VNil:
		panic(goPanic{"nil", "nil pointer dereference"})
	case VTerm, VElem:
		if x.H.StoreVal != nil {
			v = x.H.StoreVal(st, p, v)
		}
		if x.H.Store != nil {
			x.H.Store(st, p, v)
		}
		base, path := opaqueAddr(q)
		if path == "" && x.isNil(st, base) {
			panic(goPanic{"nil", "nil pointer dereference"})
		}
		if x.H.StoredOpaque != nil && x.H.StoredOpaque(st, base, path, v) {
			return
		}
		st.ops = append(st.ops, opStore{base, path, v})
		return
	}
	x.fail("store through %s", x.show(p))
}

// unTagIn: array elements keep their identity as elements.
func (x *Exec) unTagIn(p VPtr, v Val) Val {
	if len(p.Path) > 0 && p.Path[len(p.Path)-1].Idx != nil {
		return x.unTag(v)
	}
	return v
}

func (x *Exec) bounds(st *State, i, n Lin) {
	if !x.decideGE(st, i) || !x.decideGE(st, n.Sub(i).AddI(-1)) {
		panic(goPanic{"index", "index out of range"})
	}
}

func (x *Exec) indexAddr(st *State, v Val, i Lin, t types.Type) Val {
	switch v := v.(type) {
	case VSlice:
		x.bounds(st, i, v.Len)
		idx := v.Off.Add(i)
		return VPtr{v.Obj, append(v.Path[:len(v.Path):len(v.Path)], PE{Idx: &idx})}
	case VPtr:
		p := x.materialise(st, v)
		at, ok := under(deref(t)).(*types.Array)
		if !ok {
			x.fail("index of %s", t)
		}
		x.bounds(st, i, K(at.Len()))
		idx := i
		return VPtr{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], PE{Idx: &idx})}
	case VNil:
		if _, ok := coreOf(t).(*types.Slice); ok {
			panic(goPanic{"index", "index out of range"})
		}
		panic(goPanic{"nil", "nil pointer dereference"})
	}
	x.fail("index of %s", x.show(v))
	return nil
}

// ---- slices

func (x *Exec) newSlice(st *State, c Seq, n, cap Lin, et types.Type) VSlice {
	id := x.newObj(st, &Obj{Kind: OMem, T: nil, V: VArr{c, cap}, Fresh: true})
	return VSlice{Obj: id, Off: K(0), Len: n, Cap: cap}
}

// snapshot is the content of a slice as a value.
func (x *Exec) snapshot(st *State, v Val) Val {
	c, n := x.content(st, v)
	return VArr{x.normSeq(st, c), n}
}

func (x *Exec) content(st *State, v Val) (Seq, Lin) {
	switch v := v.(type) {
	case VNil:
		return nil, K(0)
	case VSlice:
		o := st.objs[v.Obj]
		a, ok := x.getPath(st, o.V, v.Path, o.T).(VArr)
		if !ok {
			x.fail("slice over %s", x.show(o.V))
		}
		return x.seqSub(st, a.C, v.Off, v.Len), v.Len
	case VTerm:
		if isStr(v.T) {
			n := x.strLen(st, v)
			return seg(x.base("bytes("+x.key(v)+")", types.Typ[types.Byte]), K(0), n), n
		}
	}
	x.fail("content of %s", x.show(v))
	return nil, Lin{}
}

func (x *Exec) lenOf(st *State, v Val) Lin {
	switch v := v.(type) {
	case VNil:
		return K(0)
	case VSlice:
		return v.Len
	case VArr:
		return v.N
	case VPtr:
		o := st.objs[v.Obj]
		if o.Kind == OMap {
			if x.H.Load != nil {
				x.H.Load(st, v, nil)
			}
			return o.M.Len
		}
		if a, ok := x.getPath(st, o.V, v.Path, o.T).(VArr); ok {
			return a.N
		}
	case VTerm, VElem:
		t := termType(v)
		if t != nil && isStr(t) {
			return x.strLen(st, v)
		}
		if isNilable(t) && x.isNil(st, v) {
			return K(0)
		}
		if mt, ok := under(t).(*types.Map); t != nil && ok {
			return x.mapLen(st, v, mt)
		}
		return S(x.ST.Intern("len:"+x.key(v), "len("+x.show(v)+")", big0, maxLen))
	}
	x.fail("length of %s", x.show(v))
	return Lin{}
}

// mapLen is the length of an opaque map: what it was, and what was done since.
func (x *Exec) mapLen(st *State, m Val, mt *types.Map) Lin {
	if x.H.Load != nil {
		x.H.Load(st, m, mt)
	}
	l := S(x.ST.Intern("len:"+x.key(m), "len("+x.show(m)+")", big0, maxLen))
	x.mapHolds(st, m, nil, mt)
	ops := st.ops
	defer func() { st.ops = ops }()
	n := l
	for i, o := range ops {
		if !strings.HasPrefix(o.Path, "map:") {
			continue
		}
		if x.key(o.Ptr) != x.key(m) {
			if _, ok := under(termType(o.Ptr)).(*types.Map); !ok || !types.Identical(under(termType(o.Ptr)), mt) {
				continue
			}
			if !x.decide(st, x.equal(st, o.Ptr, m, nil)) {
				continue
			}
		}
		kv := o.V.(VTuple).F
		st.ops = ops[:i]
		_, have := x.mapGet(st, m, kv[0], mt)
		st.ops = ops
		switch {
		case have && len(kv) == 1:
			n = n.AddI(-1)
		case !have && len(kv) == 2:
			n = n.AddI(1)
		}
	}
	return n
}

// mapHolds reports whether an opaque map can hold all the keys it is known to
// have held at the start, and k if given. Its length is at least their number.
func (x *Exec) mapHolds(st *State, m, k Val, mt *types.Map) bool {
	var ks []Val
	for _, f := range st.facts {
		if f.V && f.F.Pred == "in" && x.key(f.F.Args[0]) == x.key(m) {
			ks = append(ks, f.F.Args[1])
		}
	}
	sort.Slice(ks, func(i, j int) bool { return x.key(ks[i]) < x.key(ks[j]) })
	var dist []Val
	add := func(k Val) {
		for _, o := range dist {
			if !x.apart(st, o, k, mt.Key()) {
				return
			}
		}
		dist = append(dist, k)
	}
	if k != nil {
		add(k)
	}
	for _, o := range ks {
		add(o)
	}
	id := "len:" + x.key(m)
	if _, used := x.ST.memo[id]; !used {
		return true
	}
	l := S(x.ST.Intern(id, "", big0, maxLen))
	c := GE(l, K(int64(len(dist))))
	if k == nil {
		st.cons = append(st.cons, c)
		return true
	}
	return !x.known(st, LT(l, K(int64(len(dist)))))
}

// apart: two keys are known to differ.
func (x *Exec) apart(st *State, a, b Val, t types.Type) bool {
	e := x.equal(st, a, b, t)
	switch e.Kind {
	case 'c':
		return e.C == e.Neg
	case 'f':
		v, known := x.factOf(st, e.F)
		return known && v == e.Neg
	}
	return false
}

func termType(v Val) types.Type {
	switch v := v.(type) {
	case VTerm:
		return v.T
	case VElem:
		return v.B.Elem
	}
	return nil
}

func (x *Exec) makeSlice(st *State, in *ssa.MakeSlice) Val {
	t := x.typ(st, in.Type())
	et := coreOf(t).(*types.Slice).Elem()
	n := x.num(x.val(st, in.Len))
	c := n
	if in.Cap != in.Len {
		c = x.num(x.val(st, in.Cap))
	}
	if !x.decideGE(st, n) {
		panic(goPanic{"makeslice", "makeslice: len out of range"})
	}
	if !x.decideGE(st, c.Sub(n)) {
		panic(goPanic{"makeslice", "makeslice: cap out of range"})
	}
	// larger requests fail for lack of memory; assumed away
	if !x.decideGE(st, KB(pow2(52)).Sub(c)) {
		panic(needSplit{})
	}
	if c.isZero() {
		return x.newSlice(st, nil, n, c, et)
	}
	return x.newSlice(st, Seq{{Kind: PRep, V: x.zero(et), N: c}}, n, c, et)
}

func (x *Exec) slice(st *State, in *ssa.Slice) Val {
	v := x.val(st, in.X)
	var lo, hi, max Lin
	lo = K(0)
	if in.Low != nil {
		lo = x.num(x.val(st, in.Low))
	}
	get := func(dh, dm Lin) {
		hi, max = dh, dm
		if in.High != nil {
			hi = x.num(x.val(st, in.High))
		}
		if in.Max != nil {
			max = x.num(x.val(st, in.Max))
			if !x.decideGE(st, dm.Sub(max)) {
				panic(goPanic{"slice", "slice bounds out of range"})
			}
		}
		if !x.decideGE(st, lo) || !x.decideGE(st, hi.Sub(lo)) || !x.decideGE(st, max.Sub(hi)) {
			panic(goPanic{"slice", "slice bounds out of range"})
		}
	}
	switch s := v.(type) {
	case VNil:
		if _, ok := coreOf(x.typ(st, in.X.Type())).(*types.Slice); !ok {
			panic(goPanic{"nil", "nil pointer dereference"})
		}
		get(K(0), K(0))
		return VNil{}
	case VSlice:
		get(s.Len, s.Cap)
		return VSlice{s.Obj, s.Path, s.Off.Add(lo), hi.Sub(lo), max.Sub(lo)}
	case VPtr:
		at := under(deref(x.typ(st, in.X.Type()))).(*types.Array)
		get(K(at.Len()), K(at.Len()))
		return VSlice{s.Obj, s.Path, lo, hi.Sub(lo), max.Sub(lo)}
	case VTerm:
		if isStr(s.T) {
			n := x.strLen(st, s)
			get(n, n)
			return VTerm{Fn: "substr", Args: []Val{s, VNum{lo}, VNum{hi}}, T: s.T}
		}
	}
	x.fail("slice of %s", x.show(v))
	return nil
}

func (x *Exec) appendSlice(st *State, s, e Val, et types.Type) Val {
	ec, en := x.content(st, e)
	if x.decideEQ(st, en) {
		return s
	}
	if x.H.Append != nil {
		ec = x.H.Append(st, s, ec, et)
	}
	switch d := s.(type) {
	case VNil:
		cap := S(x.ST.Fresh("cap", big0, pow2(52)))
		st.cons = append(st.cons, GE(cap, en))
		return x.growSlice(st, ec, en, cap, et)
	case VSlice:
		n := d.Len.Add(en)
		if x.decideGE(st, d.Cap.Sub(n)) {
			if x.H.Store != nil {
				idx := d.Off.Add(d.Len)
				x.H.Store(st, VPtr{d.Obj, append(d.Path[:len(d.Path):len(d.Path)], PE{Idx: &idx})}, nil)
			}
			o := *st.objs[d.Obj]
			a := x.getPath(st, o.V, d.Path, o.T).(VArr)
			a.C = x.seqPut(st, a.C, d.Off.Add(d.Len), ec, en)
			o.V = x.setPath(st, o.V, d.Path, a, o.T)
			st.objs[d.Obj] = &o
			return VSlice{d.Obj, d.Path, d.Off, n, d.Cap}
		}
		dc, _ := x.content(st, d)
		cap := S(x.ST.Fresh("cap", big0, pow2(52)))
		st.cons = append(st.cons, GE(cap, n))
		return x.growSlice(st, seqCat(dc, ec), n, cap, et)
	}
	x.fail("append to %s", x.show(s))
	return nil
}

// growSlice allocates; the room past n holds zero values.
func (x *Exec) growSlice(st *State, c Seq, n, cap Lin, et types.Type) Val {
	c = append(append(Seq{}, c...), Piece{Kind: PRep, V: x.zero(et), N: cap.Sub(n)})
	id := x.newObj(st, &Obj{Kind: OMem, V: VArr{c, cap}, Fresh: true})
	return VSlice{Obj: id, Off: K(0), Len: n, Cap: cap}
}

func (x *Exec) copySlice(st *State, dst, src Val) Lin {
	dn, sn := x.lenOf(st, dst), x.lenOf(st, src)
	n := dn
	if !x.decideGE(st, sn.Sub(dn)) {
		n = sn
	}
	if x.decideEQ(st, n) {
		return K(0)
	}
	sc, _ := x.content(st, src)
	sc = x.seqSub(st, sc, K(0), n)
	d := dst.(VSlice)
	if x.H.Store != nil {
		idx := d.Off
		x.H.Store(st, VPtr{d.Obj, append(d.Path[:len(d.Path):len(d.Path)], PE{Idx: &idx})}, nil)
	}
	o := *st.objs[d.Obj]
	a := x.getPath(st, o.V, d.Path, o.T).(VArr)
	a.C = x.seqPut(st, a.C, d.Off, sc, n)
	o.V = x.setPath(st, o.V, d.Path, a, o.T)
	st.objs[d.Obj] = &o
	return n
}

// ---- maps

func (x *Exec) mapType(st *State, m Val) *types.Map {
	switch m := m.(type) {
	case VPtr:
		return st.objs[m.Obj].M.T
	case VTerm, VElem:
		mt, _ := under(termType(m)).(*types.Map)
		return mt
	}
	return nil
}

// mapGet looks k up: value and presence.
func (x *Exec) mapGet(st *State, m Val, k Val, mt *types.Map) (Val, bool) {
	k = x.unTag(k)
	switch mv := m.(type) {
	case VNil:
		return x.zero(mt.Elem()), false
	case VPtr:
		o := st.objs[mv.Obj]
		for i := len(o.M.Upd) - 1; i >= 0; i-- {
			u := o.M.Upd[i]
			if x.decide(st, x.equal(st, u.K, k, mt.Key())) {
				if u.Del {
					return x.zero(mt.Elem()), false
				}
				return u.V, true
			}
		}
		if o.M.KB == nil {
			return x.zero(mt.Elem()), false
		}
		if e, ok := k.(VElem); ok && e.B == o.M.KB {
			if !x.decideGE(st, e.Idx.Sub(o.M.gone())) {
				return x.zero(mt.Elem()), false
			}
			return x.elem(o.M.VB, e.Idx), true
		}
		if len(o.M.Upd) == 0 && !o.M.gone().isZero() {
			if x.decideEQ(st, o.M.Len) {
				return x.zero(mt.Elem()), false
			}
			x.fail("lookup in a map that is being emptied")
		}
		if e, ok := k.(VElem); ok && o.M.LK != nil && e.B == o.M.LK {
			return x.elem(o.M.LV, e.Idx), true
		}
		if !x.decideFact(st, Fact{"in", []Val{o.M.Name, k}}) {
			return x.zero(mt.Elem()), false
		}
		return x.termV(VTerm{Fn: "mapget", Args: []Val{o.M.Name, k}}, mt.Elem()), true
	case VTerm, VElem:
		if x.isNil(st, m) {
			return x.zero(mt.Elem()), false
		}
		for i := len(st.ops) - 1; i >= 0; i-- {
			s := st.ops[i]
			if !strings.HasPrefix(s.Path, "map:") || x.key(s.Ptr) != x.key(m) {
				if strings.HasPrefix(s.Path, "map:") && !x.decide(st, x.equal(st, s.Ptr, m, nil)) {
					continue
				} else if !strings.HasPrefix(s.Path, "map:") {
					continue
				}
			}
			kv := s.V.(VTuple)
			if x.decide(st, x.equal(st, kv.F[0], k, mt.Key())) {
				if len(kv.F) == 1 {
					return x.zero(mt.Elem()), false
				}
				return kv.F[1], true
			}
		}
		if _, known := x.factOf(st, Fact{"in", []Val{m, k}}); !known && !x.mapHolds(st, m, k, mt) {
			x.setFact(st, Fact{"in", []Val{m, k}}, false)
		}
		if !x.decideFact(st, Fact{"in", []Val{m, k}}) {
			return x.zero(mt.Elem()), false
		}
		x.mapHolds(st, m, nil, mt)
		return x.termV(VTerm{Fn: "mapget", Args: []Val{m, k}}, mt.Elem()), true
	}
	x.fail("map lookup in %s", x.show(m))
	return nil, false
}

// hash panics for a key whose dynamic type cannot be hashed, which a type
// parameter that stands for an interface type allows.
func (x *Exec) hash(st *State, k Val) {
	if x.keyPan && !x.decideFact(st, Fact{"hashable", []Val{k}}) {
		panic(goPanic{"hash", "hash of unhashable type"})
	}
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) {
	m := x.val(st, in.X)
	mt, ok := coreOf(x.typ(st, in.X.Type())).(*types.Map)
	if !ok {
		// string index
		i := x.num(x.val(st, in.Index))
		x.bounds(st, i, x.strLen(st, m))
		b := x.base("bytes("+x.key(m)+")", types.Typ[types.Byte])
		x.set(st, in, x.elem(b, i))
		return
	}
	if x.H.Load != nil {
		x.H.Load(st, m, mt)
	}
	x.hash(st, x.val(st, in.Index))
	v, have := x.mapGet(st, m, x.val(st, in.Index), mt)
	if in.CommaOk {
		x.set(st, in, VTuple{[]Val{v, bconst(have)}})
	} else {
		x.set(st, in, v)
	}
}

func (x *Exec) mapUpdate(st *State, m, k, v Val, del bool) {
	k = x.unTag(k)
	if !del && x.H.MapSet != nil && x.H.MapSet(st, m, k, v) {
		return
	}
	if x.H.Store != nil {
		x.H.Store(st, m, v)
	}
	switch mv := m.(type) {
	case VNil:
		if del {
			return
		}
		panic(goPanic{"nilmap", "assignment to entry in nil map"})
	case VPtr:
		o := *st.objs[mv.Obj]
		if e, ok := k.(VElem); ok && del && o.M.KB != nil && e.B == o.M.KB && len(o.M.Upd) == 0 && x.eqLin(st, e.Idx, o.M.gone()) {
			// the next entry of the enumeration goes
			n := *o.M
			n.Gone = e.Idx.AddI(1)
			n.Len = n.Len.AddI(-1)
			o.M = &n
			st.objs[mv.Obj] = &o
			return
		}
		_, have := x.mapGet(st, m, k, o.M.T)
		n := *o.M
		if del == have {
			if del {
				n.Len = n.Len.AddI(-1)
			} else {
				n.Len = n.Len.AddI(1)
			}
		}
		if have && !del {
			// replace an earlier update of the same key in place of order
		}
		n.Upd = append(n.Upd[:len(n.Upd):len(n.Upd)], MapUpd{k, v, del})
		if !del || have {
			o.M = &n
		}
		st.objs[mv.Obj] = &o
		return
	case VTerm, VElem:
		if x.isNil(st, m) {
			if del {
				return
			}
			panic(goPanic{"nilmap", "assignment to entry in nil map"})
		}
		kv := []Val{k}
		if !del {
			kv = append(kv, v)
		}
		st.ops = append(st.ops, opStore{m, "map:", VTuple{kv}})
		return
	}
	x.fail("map update of %s", x.show(m))
}

// rangeIter makes an iterator object: {position, map}.
func (x *Exec) rangeIter(st *State, m Val, t types.Type) Val {
	if _, ok := coreOf(t).(*types.Map); !ok {
		x.fail("range over %s", t)
	}
	return x.newMem(st, VStruct{[]Val{VNum{K(0)}, m}}, nil)
}

func (x *Exec) next(st *State, in *ssa.Next) {
	it := x.val(st, in.Iter).(VPtr)
	o := *st.objs[it.Obj]
	f := o.V.(VStruct).F
	i, m := f[0].(VNum).L, f[1]
	if x.H.Load != nil {
		if _, ok := m.(VPtr); ok {
			x.H.Load(st, m, nil)
		}
	}
	tt := x.typ(st, in.Type()).(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	zeroT := func(t types.Type) Val {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return VTop{}
		}
		return x.zero(t)
	}
	done := func() {
		x.set(st, in, VTuple{[]Val{bconst(false), zeroT(kt), zeroT(vt)}})
	}
	if _, ok := m.(VNil); ok {
		done()
		return
	}
	mp, ok := m.(VPtr)
	if !ok {
		x.fail("range over %s", x.show(m))
	}
	mv := st.objs[mp.Obj].M
	if len(mv.Upd) > 0 {
		x.fail("range over a modified map")
	}
	if g := mv.gone(); !g.isZero() && !x.decideGE(st, i.Sub(g)) {
		x.fail("range over a map whose later entries are deleted")
	}
	if mv.KB == nil || !x.decideGE(st, mv.Len.Add(mv.gone()).Sub(i).AddI(-1)) {
		done()
		return
	}
	o.V = VStruct{[]Val{VNum{i.AddI(1)}, m}}
	st.objs[it.Obj] = &o
	x.set(st, in, VTuple{[]Val{bconst(true), x.elem(mv.KB, i), x.elem(mv.VB, i)}})
}
