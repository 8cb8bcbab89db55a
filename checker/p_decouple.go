package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The decoupler (C13, C14). Its protocol: a writer reserves a place by raising
// the count of pending writes from below the size, draws the next ticket,
// fills the slot of that ticket and publishes it; the reader takes the slots in
// ticket order, waits for each to be published, shows it, empties it and only
// then gives the place back. Then the outstanding tickets always lie within one
// round of the slots, so that a ticket's slot belongs to its writer, from the
// draw to the publication, and from there to the reader, until the slot is
// emptied. Every access of Write and Next is judged against this protocol, with
// whatever the other side may have done in between.

const decPkg = "iox/decouplex"

type decoupler struct {
	c                       *Case
	x                       *Exec
	t                       *types.Named
	self                    VPtr
	fRead, fWrite, fLen     int
	fSize, fTab, fBuf, fDrp int
	tab, buf, old           int // objects of the slots, the buffers and the slot's old buffer
	size                    Lin
	first                   *big.Int // what drawing the first ticket gives
	read0                   *big.Int // the read count of a new decoupler
	empty                   *big.Int
	k                       Lin // this writer's, or the reader's next, ticket
	writer                  bool
	pub                     func(st *State) Lin // what the writer of ticket k publishes
	arg                     VSlice
}

func (d *decoupler) bad(st *State, f string, a ...any) {
	d.c.bad(st, f+" (at "+d.x.where()+")", a...)
}

func (d *decoupler) phase(st *State) string {
	if t, ok := st.ghost["phase"].(VTerm); ok {
		return t.Fn
	}
	return ""
}
func (d *decoupler) set(st *State, p string)      { st.ghost["phase"] = VTerm{Fn: p} }
func (d *decoupler) has(st *State, k string) bool { _, ok := st.ghost[k]; return ok }

func (d *decoupler) field(p Val, f int) bool {
	q, ok := p.(VPtr)
	return ok && q.Obj == d.self.Obj && len(q.Path) > 0 && q.Path[0].F == f
}

// slot is the index of an address among the slots or the buffers.
func (d *decoupler) slot(p Val, obj int) (Lin, bool) {
	q, ok := p.(VPtr)
	if !ok || q.Obj != obj || len(q.Path) == 0 || q.Path[0].Idx == nil {
		return Lin{}, false
	}
	return *q.Path[0].Idx, true
}

var uint64T = types.Typ[types.Uint64]

// index is the slot of ticket k.
func (d *decoupler) index(st *State) Lin {
	return d.x.arith(st, token.REM, d.k, d.size, uint64T, uint64T)
}

// own checks that the slot accessed is that of ticket k.
func (d *decoupler) own(st *State, i Lin) bool {
	want := d.index(st)
	if !d.x.eqLin(st, i, want) {
		d.bad(st, "uses slot %s, but that of its ticket is %s", d.x.l(i), d.x.l(want))
		return false
	}
	return true
}

// modified are the word fields whose address reaches a store or an atomic
// change in a function or what it calls.
func modified(p *Program, fn *ssa.Function, t *types.Named) map[int]bool {
	out := map[int]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil {
			return
		}
		if f.Origin() != nil {
			f = f.Origin()
		}
		p.build(f)
		if seen[f] || f.Blocks == nil || f.Pkg != fn.Pkg && f.Parent() == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				if cl, ok := in.(ssa.CallInstruction); ok {
					visit(cl.Common().StaticCallee())
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !sameGeneric(deref(fa.X.Type()), t) {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.Store:
						if u.Addr == fa {
							out[fa.Field] = true
						}
					case ssa.CallInstruction:
						n := ""
						if cal := u.Common().StaticCallee(); cal != nil {
							n = cal.Name()
						}
						if !strings.HasPrefix(n, "Load") {
							out[fa.Field] = true
						}
					}
				}
			}
		}
	}
	visit(fn)
	return out
}

func newDecoupler(c *Case, zero bool, f func(d *decoupler, st *State)) {
	x := c.X
	x.H = Hooks{}
	x.InitPkg(x.P.pkgs[decPkg])
	d := &decoupler{c: c, x: x, t: x.P.Type(decPkg, "Decoupler")}
	d.fRead, d.fWrite, d.fLen, d.fSize, d.fTab, d.fBuf, d.fDrp = -1, -1, -1, -1, -1, -1, -1
	one := func(p *int, i int) {
		if *p >= 0 {
			x.fail("two fields for one role in the decoupler")
		}
		*p = i
	}
	byW := modified(x.P, x.P.Fn(decPkg, "Decoupler.Write"), d.t)
	byR := modified(x.P, x.P.Fn(decPkg, "Decoupler.Next"), d.t)
	isWord := func(t types.Type) bool {
		return isNamed(t, "sync/atomic.Uint64") || isInt(t) && basicOf(t).Kind() == types.Uint64
	}
	s := structOf(d.t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		sl, isSl := under(f.Type()).(*types.Slice)
		switch {
		case f.Name() == "_":
		case isWord(f.Type()):
			switch {
			case byW[i] && byR[i]:
				one(&d.fLen, i)
			case byW[i]:
				one(&d.fWrite, i)
			case byR[i]:
				one(&d.fRead, i)
			default:
				one(&d.fSize, i)
			}
		case isSl && isWord(sl.Elem()):
			one(&d.fTab, i)
		case isSl:
			one(&d.fBuf, i)
		case isFunc(f.Type()):
			one(&d.fDrp, i)
		default:
			x.fail("a field %s of unknown role", f.Name())
		}
	}
	for _, f := range []int{d.fRead, d.fWrite, d.fLen, d.fSize, d.fTab, d.fBuf, d.fDrp} {
		if f < 0 {
			x.fail("a role of the decoupler's fields is missing")
		}
	}
	// what a new decoupler looks like
	d.size = K(0)
	if !zero {
		d.size = x.symRange("size", big1, pow2(40))
	}
	fn := x.P.Fn(decPkg, "NewDecoupler")
	st := NewState()
	rs := c.Call(st, fn, nil, VNum{d.size}, VTerm{Fn: "drop", NN: true, T: fn.Signature.Params().At(1).Type()})
	if len(rs) == 0 {
		x.fail("NewDecoupler does not return")
	}
	for _, q := range rs {
		if q.pan != nil {
			c.bad(q.st, "NewDecoupler %s", panMsg(q.pan))
			continue
		}
		p, ok := q.vals[0].(VPtr)
		if !ok {
			x.fail("NewDecoupler returns %s", x.show(q.vals[0]))
		}
		e := *d
		e.self = p
		if bad := e.fresh(q.st); bad != "" {
			c.bad(q.st, "a new decoupler: %s", bad)
			continue
		}
		q.st.trace = nil
		f(&e, q.st)
	}
}

func decDrop(p *Program) int {
	return fieldBy(p.Type(decPkg, "Decoupler"), 0, isFunc)
}

func (d *decoupler) word(st *State, v Val) (*big.Int, bool) {
	if s, ok := v.(VStruct); ok {
		v = s.F[len(s.F)-1]
	}
	n, ok := v.(VNum)
	if !ok || !n.L.isConst() {
		return nil, false
	}
	return n.L.K, true
}

func (d *decoupler) fresh(st *State) string {
	x := d.x
	if m := x.numIs(st, "its size", x.getF(st, d.self, d.fSize), d.size); m != "" {
		return m
	}
	w, ok1 := d.word(st, x.getF(st, d.self, d.fWrite))
	r, ok2 := d.word(st, x.getF(st, d.self, d.fRead))
	n, ok3 := d.word(st, x.getF(st, d.self, d.fLen))
	if !ok1 || !ok2 || !ok3 {
		return "its counters are not constant"
	}
	if n.Sign() != 0 {
		return "it has pending writes"
	}
	d.first = new(big.Int).Mod(new(big.Int).Add(w, big1), pow2(64))
	d.read0 = r
	if !isFn(x.getF(st, d.self, d.fDrp), "drop") {
		return "it does not keep the drop function"
	}
	for _, f := range []int{d.fTab, d.fBuf} {
		v := x.getF(st, d.self, f)
		c, l := x.content(st, v)
		if !x.known(st, GE(l, d.size)) {
			return "the number of its slots is " + x.l(l) + ", fewer than its size"
		}
		if f == d.fBuf {
			if s, ok := v.(VSlice); ok {
				d.buf = s.Obj
			}
			continue
		}
		if s, ok := v.(VSlice); ok {
			d.tab = s.Obj
			if !x.eqLin(st, s.Off, K(0)) {
				return "its slots start within an array"
			}
		}
		for _, p := range x.normSeq(st, c) {
			if x.known(st, EQ(p.Len(), K(0))) {
				continue
			}
			e, ok := d.word(st, p.V)
			if !ok || p.Kind != POne && p.Kind != PRep {
				return "its slots are not all empty: " + x.showSeq(c)
			}
			if d.empty != nil && d.empty.Cmp(e) != 0 {
				return "its slots are not all empty: " + x.showSeq(c)
			}
			d.empty = e
		}
	}
	return ""
}

// hooks interprets accesses to shared memory.
func (d *decoupler) hooks(st *State) {
	x := d.x
	d.k = x.symRange("ticket", big0, pow2(62))
	// the memory of the slot's buffer, of any size
	ob := x.base("old", types.Typ[types.Byte])
	oldN, oldC := x.lenSym("old"), x.lenSym("oldcap")
	st.cons = append(st.cons, LE(oldN, oldC), GE(d.size, K(0)))
	old := x.newSlice(st, Seq{{Kind: PSeg, B: ob, From: K(0), To: oldC}}, oldN, oldC, types.Typ[types.Byte])
	d.old = old.Obj
	st.ghost["old"] = old
	x.H.Loaded = func(st *State, p Val, t types.Type) (Val, bool) {
		if d.field(p, d.fLen) || d.field(p, d.fWrite) {
			d.bad(st, "reads a shared counter without an atomic operation")
		}
		if _, ok := d.slot(p, d.tab); ok {
			d.bad(st, "reads a slot's state without an atomic operation")
		}
		i, ok := d.slot(p, d.buf)
		if !ok {
			return nil, false
		}
		if !d.own(st, i) {
			return nil, false
		}
		if v, ok := st.ghost["buffer"]; ok {
			return v, true
		}
		switch ph := d.phase(st); {
		case d.writer && ph != "ticket":
			d.bad(st, "touches a buffer %s", map[string]string{"": "without a place", "reserved": "before drawing its ticket", "published": "after publishing it"}[ph])
		case !d.writer && ph != "ready" && ph != "shown":
			d.bad(st, "touches a buffer that is not published, or no longer its own")
		}
		if d.writer {
			return old, true
		}
		return VSlice{Obj: d.old, Off: K(0), Len: oldN, Cap: oldC}, true
	}
	x.H.Stored = func(st *State, p Val, v Val) bool {
		q, ok := p.(VPtr)
		if !ok {
			return false
		}
		if i, ok := d.slot(p, d.buf); ok {
			if d.own(st, i) {
				switch ph := d.phase(st); {
				case d.writer && ph != "ticket", !d.writer && ph != "ready" && ph != "shown":
					d.bad(st, "changes a buffer that is not its own")
				}
				st.ghost["buffer"] = v
			}
			return true
		}
		if _, ok := d.slot(p, d.tab); ok {
			d.bad(st, "changes a slot's state without an atomic operation")
			return true
		}
		if q.Obj == d.self.Obj {
			if !d.writer && d.field(p, d.fRead) {
				return false
			}
			d.bad(st, "changes a field it may not change here, or without an atomic operation")
			return true
		}
		if q.Obj == d.old {
			switch ph := d.phase(st); {
			case d.writer && ph != "ticket":
				d.bad(st, "writes into a buffer %s", map[string]string{"": "without a place", "reserved": "before drawing its ticket", "published": "after publishing it"}[ph])
			case !d.writer:
				d.bad(st, "writes into a buffer")
			}
		}
		return false
	}
	x.H.Store = func(st *State, p Val, v Val) {
		// bulk stores (append, copy) into the slot's memory
		if q, ok := p.(VPtr); ok && v == nil {
			if q.Obj == d.old && (!d.writer || d.phase(st) != "ticket") {
				d.bad(st, "writes into a buffer that is not its own")
			}
			if q.Obj == d.tab || q.Obj == d.buf || q.Obj == d.self.Obj {
				d.bad(st, "overwrites shared memory")
			}
			if d.writer && q.Obj == d.arg.Obj {
				d.bad(st, "writes into the caller's slice")
			}
		}
	}
	x.H.Atomic = func(st *State, op string, cell Val, rest []Val, t types.Type) ([]Ret, bool) {
		switch {
		case d.field(cell, d.fLen):
			return x.fork(st, func(st *State) []Ret { return d.len(st, op, rest) }), true
		case d.field(cell, d.fWrite):
			return d.ticket(st, op, rest), true
		case d.field(cell, d.fRead):
			if d.writer {
				x.fail("the writer uses the read counter")
			}
			return nil, false
		case d.field(cell, d.fSize):
			if op != "Load" {
				d.bad(st, "changes the size")
			}
			return nil, false
		}
		if i, ok := d.slot(cell, d.tab); ok {
			return x.fork(st, func(st *State) []Ret { return d.state(st, op, i, rest) }), true
		}
		return nil, false
	}
	x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
		if name == "runtime.Gosched" || name == "time.Sleep" {
			return ret(st), true
		}
		if !strings.HasPrefix(name, "call:") {
			return nil, false
		}
		switch {
		case isFn(args[0], "drop"):
			return x.fork(st, func(st *State) []Ret { return d.drop(st, args[1], sig) }), true
		case isFn(args[0], "view"):
			if d.writer || d.phase(st) != "ready" {
				d.bad(st, "shows a buffer %s", map[string]string{"": "that is not published", "shown": "twice", "emptied": "it has given up", "done": "it has given up"}[d.phase(st)])
			}
			s, ok := args[1].(VSlice)
			if !ok || s.Obj != d.old || !x.known(st, EQ(s.Off, K(0))) || !x.known(st, EQ(s.Len, oldN)) {
				d.bad(st, "shows %s, not the buffer", x.show(args[1]))
			}
			d.set(st, "shown")
			return ret(st), true
		}
		return nil, false
	}
	x.H.Event = func(st *State, ev VTerm) {
		switch ev.Fn {
		case "send", "go", "lock", "rlock", "recv", "recvclosed", "close":
			x.fail("%s in the decoupler", ev.Fn)
		}
	}
}

// len is an atomic operation on the count of pending writes.
func (d *decoupler) len(st *State, op string, rest []Val) []Ret {
	x := d.x
	load := func() Lin {
		n := x.num(x.fresh("pending", uint64T))
		st.cons = append(st.cons, LE(n, d.size))
		if !d.writer && d.has(st, "some") {
			st.cons = append(st.cons, GE(n, K(1)))
		}
		return n
	}
	// taken and given are the changes by one
	taken := func(full bool) {
		if !d.writer {
			d.bad(st, "raises the count of pending writes")
			return
		}
		if !full {
			d.bad(st, "takes a place although none may be free")
		}
		if d.phase(st) != "" {
			d.bad(st, "takes a second place")
			return
		}
		d.set(st, "reserved")
	}
	given := func() {
		if d.writer {
			d.bad(st, "gives a place back")
			return
		}
		if d.phase(st) != "emptied" {
			d.bad(st, "gives the place back %s", map[string]string{"": "before its write is published", "ready": "before its slot is emptied", "shown": "before its slot is emptied", "done": "twice"}[d.phase(st)])
		}
		d.set(st, "done")
	}
	switch op {
	case "Load":
		n := load()
		st.ghost["pending"] = VNum{n}
		return ret(st, VNum{n})
	case "CompareAndSwap":
		if !x.choice(st, "swapped?") {
			return ret(st, bconst(false))
		}
		n, m := x.num(rest[0]), x.num(rest[1])
		st.cons = append(st.cons, LE(n, d.size))
		if !d.writer && d.has(st, "some") {
			st.cons = append(st.cons, GE(n, K(1)))
		}
		switch {
		case x.eqLin(st, m, n.AddI(1)):
			taken(x.known(st, LT(n, d.size)))
		case x.eqLin(st, m, n.AddI(-1)):
			if !x.known(st, GE(n, K(1))) {
				d.bad(st, "the count of pending writes may fall below zero")
			}
			given()
		default:
			d.bad(st, "changes the count of pending writes by another amount than one")
		}
		return ret(st, bconst(true))
	case "Add":
		a := x.num(rest[0])
		n := load()
		switch {
		case a.isConst() && a.K.Cmp(big1) == 0:
			taken(false)
			return ret(st, VNum{n.AddI(1)})
		case a.isConst() && a.K.Cmp(new(big.Int).Sub(pow2(64), big1)) == 0:
			given()
			return ret(st, VNum{n.AddI(-1)})
		}
		d.bad(st, "changes the count of pending writes by another amount than one")
		return ret(st, VNum{n})
	}
	d.bad(st, "overwrites the count of pending writes")
	return ret(st, x.fresh("pending", uint64T))
}

// ticket is an atomic operation on the ticket counter.
func (d *decoupler) ticket(st *State, op string, rest []Val) []Ret {
	x := d.x
	if !d.writer {
		x.fail("the reader uses the ticket counter")
	}
	if op != "Add" {
		x.fail("atomic %s of the ticket counter", op)
	}
	if a := x.num(rest[0]); !a.isConst() || a.K.Cmp(big1) != 0 {
		d.bad(st, "draws tickets other than the next one")
	}
	switch d.phase(st) {
	case "":
		d.bad(st, "draws a ticket without having a place: if the write is dropped, the reader waits for it for ever")
	case "reserved":
	default:
		d.bad(st, "draws a second ticket")
	}
	d.set(st, "ticket")
	return ret(st, VNum{d.k.Add(KB(d.first))})
}

// state is an atomic operation on a slot's state.
func (d *decoupler) state(st *State, op string, i Lin, rest []Val) []Ret {
	x := d.x
	if !d.own(st, i) {
		return ret(st, x.fresh("state", uint64T))
	}
	ph := d.phase(st)
	switch op {
	case "Load":
		if d.writer {
			switch ph {
			case "ticket":
				// the place was given back after the slot was emptied
				return ret(st, VNum{KB(d.empty)})
			}
			d.bad(st, "looks at a slot that is not its own")
			return ret(st, x.fresh("state", uint64T))
		}
		if !d.has(st, "some") {
			if n, ok := st.ghost["pending"]; !ok || !x.known(st, GE(x.num(n), K(1))) {
				// a look only: nothing may follow from it
				d.bad(st, "looks at a slot without knowing that a write is pending")
			}
			st.ghost["some"] = bconst(true)
		}
		switch ph {
		case "":
			if x.choice(st, "published?") {
				d.set(st, "ready")
				return ret(st, VNum{d.pub(st)})
			}
			return ret(st, VNum{KB(d.empty)})
		case "ready", "shown":
			return ret(st, VNum{d.pub(st)})
		}
		d.bad(st, "looks at a slot it has given up")
		return ret(st, x.fresh("state", uint64T))
	case "Store":
		v := x.num(rest[0])
		if d.writer {
			if ph != "ticket" {
				d.bad(st, "publishes a slot %s", map[string]string{"": "without a place", "reserved": "before drawing its ticket", "published": "twice"}[ph])
			}
			if !x.known(st, LT(v, KB(d.empty))) && !x.known(st, LT(KB(d.empty), v)) {
				d.bad(st, "marks its slot with %s, which may mean empty", x.l(v))
			}
			st.ghost["published"] = VNum{v}
			d.written(st)
			d.set(st, "published")
			return ret(st)
		}
		if !x.eqLin(st, v, KB(d.empty)) {
			d.bad(st, "marks the slot with %s instead of empty", x.l(v))
		}
		switch ph {
		case "ready":
			if !isFnNil(st.ghost["view"]) {
				d.bad(st, "empties the slot without having shown it")
			}
		case "shown":
		default:
			d.bad(st, "empties a slot %s", map[string]string{"": "before it is published", "emptied": "twice", "done": "it has given up"}[ph])
		}
		d.set(st, "emptied")
		return ret(st)
	}
	x.fail("atomic %s of a slot", op)
	return nil
}

func isFnNil(v Val) bool { _, ok := v.(VNil); return ok }

// written checks what the slot's buffer holds when it is published.
func (d *decoupler) written(st *State) {
	x := d.x
	v, ok := st.ghost["buffer"]
	if !ok {
		d.bad(st, "publishes a slot whose buffer it has not filled")
		return
	}
	s, ok := v.(VSlice)
	if !ok {
		d.bad(st, "publishes %s", x.show(v))
		return
	}
	if s.Obj == d.arg.Obj {
		d.bad(st, "keeps the writer's own slice")
		return
	}
	if s.Obj != d.old && !st.objs[s.Obj].Fresh {
		d.bad(st, "publishes memory that may be shared")
	}
	got, _ := x.content(st, s)
	want, _ := x.content(st, d.arg)
	if m := x.seqIs(st, "the published buffer", got, want); m != "" {
		d.bad(st, "%s", m)
	}
}

// drop is a call of the drop function.
func (d *decoupler) drop(st *State, b Val, sig *types.Signature) []Ret {
	x := d.x
	if !d.writer {
		d.bad(st, "the reader drops a write")
	}
	if d.phase(st) != "" {
		d.bad(st, "drops a write that has a place")
	}
	if d.has(st, "dropped") {
		d.bad(st, "drops a write twice")
	}
	got, n := x.content(st, b)
	want, m := x.content(st, d.arg)
	if !x.eqLin(st, n, m) || x.seqIs(st, "", got, want) != "" {
		d.bad(st, "drops other data: %s", x.showSeq(got))
	}
	if !x.decideEQ(st, d.arg.Len) {
		p, ok := st.ghost["pending"]
		if !ok || !x.known(st, GE(x.num(p), d.size)) {
			d.bad(st, "drops a write although a place may be free")
		}
	}
	st.ghost["dropped"] = bconst(true)
	return ret(st, x.callRes([]Val{opaqueFn("drop")}, sig)...)
}

// write interprets Write on a decoupler in any state.
func (d *decoupler) write(st *State, f func(st *State, q Ret) string) []Ret {
	x, c := d.x, d.c
	d.writer = true
	d.hooks(st)
	b := x.base("data", types.Typ[types.Byte])
	n := x.lenSym("n")
	d.arg = x.sliceOf(st, b, n, types.Typ[types.Byte])
	fn := x.P.Fn(decPkg, "Decoupler.Write")
	rs := c.Call(st, fn, nil, d.self, d.arg)
	if f != nil {
		c.Each(rs, noPan(f))
	}
	return rs
}

func runDecWrite(r *Run) {
	for _, zero := range []bool{false, true} {
		name := decPkg + " Decoupler.Write"
		if zero {
			name += " with no places"
		}
		r.Obl(name, func(c *Case) { runDecWrite1(c, zero) })
	}
	r.Obl(decPkg+" NewDecoupler without a drop function", func(c *Case) {
		d := c.X
		d.InitPkg(d.P.pkgs[decPkg])
		c.Each(c.Call(NewState(), d.P.Fn(decPkg, "NewDecoupler"), nil, VNum{K(0)}, VNil{}), noPan(func(st *State, q Ret) string {
			p, ok := q.vals[0].(VPtr)
			if !ok {
				return "returns " + d.show(q.vals[0])
			}
			if _, nil := d.getF(st, p, decDrop(d.P)).(VNil); nil {
				return "a write it cannot take panics"
			}
			return ""
		}))
	})
}

func runDecWrite1(c *Case, zero bool) {
	n1, n2 := 0, 0
	newDecoupler(c, zero, func(d *decoupler, st *State) {
		x := d.x
		d.write(st, func(st *State, q Ret) string {
			empty := x.decideEQ(st, d.arg.Len)
			drp := d.has(st, "dropped")
			if drp {
				n2++
				if d.phase(st) != "" {
					return "drops a write that has a place"
				}
				for i, w := range x.callRes([]Val{opaqueFn("drop")}, x.P.Fn(decPkg, "Decoupler.Write").Signature) {
					if m := x.valIs(st, "result of a dropped write", q.vals[i], w); m != "" {
						return m
					}
				}
				return ""
			}
			switch ph := d.phase(st); {
			case empty && ph == "":
				return "an empty write is not dropped"
			case empty:
				return "an empty write is accepted"
			case ph != "published":
				return "ends " + map[string]string{"": "without having written or dropped anything", "reserved": "without using its place", "ticket": "without publishing its slot: the reader waits for it for ever"}[ph]
			}
			n1++
			return first(x.numIs(st, "length written", q.vals[0], d.arg.Len), x.valIs(st, "error", q.vals[1], VNil{}))
		})
	})
	if n1 == 0 && !zero || n2 == 0 {
		c.bad(nil, "never writes, or never drops")
	}
}

func runDecNext(r *Run) {
	r.Obl(decPkg+" Decoupler.Next", func(c *Case) {
		// what writers publish
		x := c.X
		var mark *Lin
		var wk Sym
		newDecoupler(&Case{X: x, r: c.r}, false, func(w *decoupler, st *State) {
			rs := w.write(st, nil)
			k, _ := w.k.isSym()
			for _, q := range rs {
				if v, ok := q.st.ghost["published"]; ok && q.pan == nil {
					l := x.num(v)
					if mark != nil {
						l = l.Subst(k, S(wk))
					} else {
						wk = k
					}
					if mark != nil && !mark.Eq(l) {
						x.fail("writers publish different marks")
					}
					mark = &l
				}
			}
		})
		if mark == nil {
			x.fail("no write is published")
		}
		n1, n2 := 0, 0
		newDecoupler(c, false, func(d *decoupler, st *State) {
			d.hooks(st)
			d.pub = func(st *State) Lin { return mark.Subst(wk, d.k) }
			// the next read is that of ticket k
			d.writer = false
			rv := Val(VNum{d.k.Add(KB(d.read0))})
			if s, ok := x.getF(st, d.self, d.fRead).(VStruct); ok {
				s.F = append([]Val(nil), s.F...)
				s.F[len(s.F)-1] = rv
				rv = s
			}
			x.setF(st, d.self, d.fRead, rv)
			fn := x.P.Fn(decPkg, "Decoupler.Next")
			for _, view := range []Val{VTerm{Fn: "view", NN: true}, VNil{}} {
				s := st.clone()
				s.ghost["view"] = view
				c.Each(c.Call(s, fn, nil, d.self, view), noPan(func(st *State, q Ret) string {
					rd := x.getF(st, d.self, d.fRead)
					if s, ok := rd.(VStruct); ok {
						rd = s.F[len(s.F)-1]
					}
					was := d.k.Add(KB(d.read0))
					if x.truth(st, q.vals[0]) {
						n1++
						if ph := d.phase(st); ph != "done" {
							return "reports a read that is not complete: " + map[string]string{"": "nothing was published", "ready": "its slot is not emptied", "shown": "its slot is not emptied", "emptied": "its place is not given back"}[ph]
						}
						return x.numIs(st, "read count", rd, was.AddI(1))
					}
					n2++
					if d.phase(st) != "" {
						return "takes a write but reports none"
					}
					if p, ok := st.ghost["pending"]; !ok || !x.known(st, EQ(x.num(p), K(0))) {
						return "reports nothing although a write may be pending"
					}
					return x.numIs(st, "read count", rd, was)
				}))
			}
		})
		if n1 == 0 || n2 == 0 {
			c.bad(nil, "never reads, or never finds nothing")
		}
	})
}

func init() {
	register(&Prop{ID: "C13", Title: "the decoupler delivers every accepted write once, in order", Pkgs: []string{decPkg}, Min: 4,
		Rule: "rely-guarantee typestate of a writer and of the reader: between reserving a place (count raised from below the size), drawing the next ticket and publishing, and from seeing the publication to emptying the slot and giving the place back, only the slot of the ticket is touched, its buffer holds exactly the written bytes, and nobody else's memory is kept or changed",
		Run:  func(r *Run) { runDecWrite(r); runDecNext(r) }})
	register(&Prop{ID: "C14", Title: "the decoupler drops a write only when it is full or empty", Pkgs: []string{decPkg}, Min: 3,
		Rule: "a dropped write has no place and no ticket, is empty or was preceded by an observation that the count of pending writes is at least the size, and the drop function's result is returned",
		Run:  runDecWrite})
}
