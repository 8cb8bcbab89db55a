package main

import (
	"go/types"
	"strings"
)

// The goroutine pool (C11, C12). Every critical section of the pool's lock is
// interpreted from an arbitrary state that satisfies the pool's invariant, and
// its effect must be one of the moves the invariant allows:
//
//   - the idle workers (a slice of the pool) are running, own a channel that is
//     open and empty, and receive from it next;
//   - the count of workers is that of the workers running, at most the maximum;
//   - a pool that is stopped stays so, gets no idle worker and starts none.
//
// A submission takes one idle worker or starts one, and hands the task to that
// worker; a worker handles what it receives once and then gives itself back or
// ends; the collector closes the channels of exactly the idle workers it has
// taken out, and, when the pool is stopped, of all that are left.

const poolPkg = "poolx/gopoolx"

type gpool struct {
	c           *Case
	x           *Exec
	t           *types.Named
	wt          types.Type // a worker
	wCh         int
	self        VPtr
	fMu, fIdle  int
	fWk         int
	ctrl        []int
	states      [][]Val // what the control fields may hold: 0 as made, others stopped
	max         Lin
	args        map[Sym]bool
	role        string
	discover    bool
	stopCh      Val
	stopSends   bool // Stop sends
	stopCloses  bool
	sigAfter    bool // Stop signals after having marked the pool as stopped
	leavesEarly bool // the collector may end without having received the signal
	idle        *Base
	fresh       *Base
	recycled    *Base
	shared      *Base // what an idle worker's place holds outside the lock
	task        Val
}

func (g *gpool) bad(st *State, f string, a ...any) {
	g.c.bad(st, f+" (at "+g.x.where()+")", a...)
}
func (g *gpool) has(st *State, k string) bool { _, ok := st.ghost[k]; return ok }
func (g *gpool) put(st *State, k string)      { st.ghost[k] = VTerm{Fn: "yes"} }
func (g *gpool) mark(st *State, k string) string {
	t, _ := st.ghost[k].(VTerm)
	return t.Fn
}
func (g *gpool) state(st *State) int {
	if m := g.mark(st, "state"); m != "" {
		for i := range g.states {
			if m == itoa(i) {
				return i
			}
		}
	}
	return 0
}
func (g *gpool) setState(st *State, k int) { st.ghost["state"] = VTerm{Fn: itoa(k)} }

func (g *gpool) field(p Val, fs ...int) bool {
	q, ok := p.(VPtr)
	if !ok || q.Obj != g.self.Obj || len(q.Path) == 0 {
		return false
	}
	for _, f := range fs {
		if q.Path[0].F == f {
			return true
		}
	}
	return false
}

// workerOf is the worker an address lies in, and the field.
func (g *gpool) workerOf(p Val) (Val, string, bool) {
	b, path := opaqueAddr(p)
	if b == nil {
		return nil, "", false
	}
	e, ok := b.(VElem)
	if !ok || !strings.HasPrefix(e.B.Name, "worker") {
		return nil, "", false
	}
	return e, path, true
}

// chanOf is the channel an idle or running worker is known by.
func (g *gpool) chanOf(w Val, kind string) Val {
	return VTerm{Fn: "chan " + kind, Args: []Val{w}, NN: true}
}

func poolTypes(p *Program) *gpool {
	g := &gpool{t: p.Type(poolPkg, "TimedPool"), fMu: -1, fIdle: -1, fWk: -1}
	s := structOf(g.t)
	one := func(f *int, i int) {
		if *f >= 0 {
			panic(undecided{"two fields of the pool have the same role"})
		}
		*f = i
	}
	run := modified(p, p.Fn(poolPkg, "TimedPool.Run"), g.t)
	stop := modified(p, p.Fn(poolPkg, "TimedPool.Stop"), g.t)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		sl, isSl := under(t).(*types.Slice)
		switch {
		case isNamed(t, "sync.Mutex") || isNamed(t, "sync.RWMutex"):
			one(&g.fMu, i)
		case isSl:
			pt, ok := under(sl.Elem()).(*types.Pointer)
			if !ok {
				panic(undecided{"the idle workers are not pointers"})
			}
			one(&g.fIdle, i)
			g.wt = pt.Elem()
			g.wCh = fieldBy(g.wt, 0, isChan)
		case isInt(t) && run[i] && !stop[i]:
			one(&g.fWk, i)
		}
	}
	if g.fMu < 0 || g.fIdle < 0 || g.fWk < 0 || g.wCh < 0 {
		panic(undecided{"a field of the pool is missing"})
	}
	return g
}

// section starts a critical section with an arbitrary state of the pool.
func (g *gpool) section(st *State) {
	x := g.x
	k := g.state(st)
	lo := 0
	if k > 0 {
		lo = 1
	}
	n := len(g.states)
	pick := lo
	for pick < n-1 && !x.choice(st, "state "+itoa(pick)+"?") {
		pick++
	}
	g.setState(st, pick)
	idle := x.lenSym("idle")
	wk := x.symRange("workers", big0, pow2(62))
	st.cons = append(st.cons, LE(wk, g.max), LE(idle, wk))
	if g.role == "worker" && !g.has(st, "dec") {
		st.cons = append(st.cons, GE(wk, K(1)))
		if g.mark(st, "phase") != "idle" {
			st.cons = append(st.cons, LT(idle, wk))
		}
	}
	x.setF(st, g.self, g.fWk, VNum{wk})
	sl := x.sliceOf(st, g.idle, idle, types.NewPointer(g.wt))
	x.setF(st, g.self, g.fIdle, sl)
	for i, f := range g.ctrl {
		x.setF(st, g.self, f, g.states[pick][i])
	}
	st.ghost["idle"] = VNum{idle}
	st.ghost["workers"] = VNum{wk}
	st.ghost["array"] = sl
	g.put(st, "in")
}

// change is what happened to the idle workers in a section: what was taken
// out, and what was added.
func (g *gpool) change(st *State) (cut Seq, added []Val) {
	x := g.x
	c, _ := x.content(st, x.getF(st, g.self, g.fIdle))
	n := x.num(st.ghost["idle"])
	pos := K(0)
	for _, p := range x.normSeq(st, c) {
		if x.known(st, LE(p.Len(), K(0))) {
			continue
		}
		from, to := p.From, p.To
		switch e, isE := p.V.(VElem); {
		case p.Kind == PSeg && p.B == g.idle:
		case p.Kind == POne && isE && e.B == g.idle:
			from, to = e.Idx, e.Idx.AddI(1)
		case p.Kind == POne:
			added = append(added, p.V)
			continue
		case p.Kind == PSeg && x.eqLin(st, p.Len(), K(1)):
			added = append(added, VElem{p.B, p.From})
			continue
		default:
			x.fail("the idle workers become %s", x.showSeq(c))
		}
		if !x.known(st, GE(from, pos)) {
			x.fail("the idle workers become %s", x.showSeq(c))
		}
		if !x.eqLin(st, from, pos) {
			cut = append(cut, Piece{Kind: PSeg, B: g.idle, From: pos, To: from})
		}
		pos = to
	}
	if !x.eqLin(st, pos, n) && !x.known(st, GE(pos, n)) {
		cut = append(cut, Piece{Kind: PSeg, B: g.idle, From: pos, To: n})
	}
	return x.normSeq(st, cut), added
}

// endSection judges what a section has done, and forgets the pool's state:
// others may change it from here on.
func (g *gpool) endSection(st *State) {
	x := g.x
	g.judge(st)
	delete(st.ghost, "array")
	if s, ok := x.getF(st, g.self, g.fIdle).(VSlice); ok {
		o := *st.objs[s.Obj]
		a, ok := x.getPath(st, o.V, s.Path, o.T).(VArr)
		if !ok || len(s.Path) > 0 {
			x.fail("the idle workers are %s", x.show(s))
		}
		o.V = VArr{seg(g.shared, K(0), a.N), a.N}
		st.objs[s.Obj] = &o
		st.ghost["array"] = VSlice{Obj: s.Obj, Off: K(0), Len: K(0), Cap: K(0)}
	}
	for _, f := range append([]int{g.fIdle, g.fWk}, g.ctrl...) {
		x.setF(st, g.self, f, x.zero(structOf(g.t).Field(f).Type()))
	}
	if g.role == "reader" {
		st.ghost["count"] = st.ghost["workers"]
	}
	delete(st.ghost, "idle")
	delete(st.ghost, "workers")
}

// judge decides whether a section's changes are allowed.
func (g *gpool) judge(st *State) {
	x := g.x
	delete(st.ghost, "in")
	was := g.state(st)
	now := -1
	for k, s := range g.states {
		same := true
		for i, f := range g.ctrl {
			same = same && x.valEq(st, x.getF(st, g.self, f), s[i])
		}
		if same {
			now = k
			break
		}
	}
	if now < 0 {
		if g.role != "stop" && g.role != "collector" {
			g.bad(st, "changes what says whether the pool is stopped")
		} else if !g.discover {
			g.bad(st, "leaves the pool in an unknown state")
		} else {
			var s []Val
			for _, f := range g.ctrl {
				s = append(s, x.getF(st, g.self, f))
			}
			now = len(g.states)
			g.states = append(g.states, s)
		}
	}
	if now < 0 {
		now = was
	}
	if was > 0 && now == 0 {
		g.bad(st, "revives a stopped pool")
	}
	if now != was && g.role != "stop" && g.role != "collector" {
		g.bad(st, "changes what says whether the pool is stopped")
	}
	g.setState(st, now)
	if was == 0 && now > 0 {
		g.put(st, "first")
	}
	old := x.num(st.ghost["workers"])
	grow := x.num(x.getF(st, g.self, g.fWk)).Sub(old)
	cut, added := g.change(st)
	d, ok := grow.constInt()
	if !ok {
		switch {
		case x.eqLin(st, grow, K(0)):
			d = 0
		case x.eqLin(st, grow, K(1)):
			d = 1
		case x.eqLin(st, grow, K(-1)):
			d = -1
		default:
			g.bad(st, "changes the number of workers by %s", x.l(grow))
		}
	}
	switch g.role {
	case "run":
		if d != 0 {
			switch {
			case d != 1:
				g.bad(st, "changes the number of workers by %d", d)
			case g.has(st, "grown"):
				g.bad(st, "counts a second worker")
			case now > 0:
				g.bad(st, "starts a worker of a stopped pool")
			case !x.known(st, LT(old, g.max)):
				g.bad(st, "counts a worker although there may be as many as allowed")
			}
			g.put(st, "grown")
		}
		if len(added) > 0 {
			g.bad(st, "makes a worker idle that is not")
		}
		if len(cut) > 0 {
			switch {
			case len(cut) != 1 || !x.eqLin(st, cut.Len(), K(1)):
				g.bad(st, "takes other than one idle worker: %s", x.showSeq(cut))
			case g.has(st, "took"):
				g.bad(st, "takes a second idle worker")
			case now > 0:
				g.bad(st, "takes an idle worker of a stopped pool, which is told to end")
			}
			st.ghost["took"] = VElem{g.idle, cut[0].From}
		}
		if now > 0 || x.known(st, EQ(x.num(st.ghost["idle"]), K(0))) && x.known(st, GE(old, g.max)) {
			g.put(st, "no room")
		}
	case "worker":
		if len(cut) > 0 {
			g.bad(st, "takes idle workers out")
		}
		if len(added) > 0 {
			w, ok := st.ghost["self"]
			switch {
			case len(added) > 1:
				g.bad(st, "becomes idle twice")
			case !ok || !x.valEq(st, added[0], w):
				g.bad(st, "makes another worker idle")
			case now > 0:
				g.bad(st, "becomes idle in a stopped pool: nobody will end it")
			case g.has(st, "dec") || d != 0:
				g.bad(st, "becomes idle although it ends")
			case g.mark(st, "phase") == "idle":
				g.bad(st, "becomes idle while it is")
			case g.mark(st, "phase") != "handled":
				g.bad(st, "becomes idle %s", map[string]string{"got": "before it has handled its task", "closed": "although its channel is closed"}[g.mark(st, "phase")])
			}
			st.ghost["chan"] = g.workerChan(st, added[0])
			st.ghost["phase"] = VTerm{Fn: "idle"}
		}
		if d != 0 {
			switch {
			case d != -1:
				g.bad(st, "changes the number of workers by %d", d)
			case g.has(st, "dec"):
				g.bad(st, "is taken off the count twice")
			case g.mark(st, "phase") == "idle":
				g.bad(st, "is taken off the count while it is idle")
			case g.mark(st, "phase") == "got":
				g.bad(st, "is taken off the count before it has handled its task")
			}
			g.put(st, "dec")
		}
	default:
		if d != 0 {
			g.bad(st, "changes the number of workers")
		}
		if len(added) > 0 {
			g.bad(st, "adds idle workers")
		}
		if g.role != "collector" {
			if len(cut) > 0 {
				g.bad(st, "takes idle workers out")
			}
			break
		}
		if now > 0 {
			// nobody else uses the idle workers of a stopped pool
			cut = whole(g.idle, x.num(st.ghost["idle"]))
			if g.has(st, "drained") {
				cut = nil
			}
			g.put(st, "draining")
		}
		st.ghost["cut"] = VArr{cut, cut.Len()}
	}
}

// workerChan is the channel in a worker's field.
func (g *gpool) workerChan(st *State, w Val) Val {
	v := g.x.load(st, VTerm{Fn: "&." + itoa(g.wCh), Args: []Val{w}, NN: true}, structOf(g.wt).Field(g.wCh).Type())
	return v
}

// closed are the workers whose channels the collector has closed so far.
func (g *gpool) closed(st *State) Seq {
	x := g.x
	var out Seq
	w := func(v Val) (VElem, bool) {
		t, ok := v.(VTerm)
		if !ok || t.Fn != "close" {
			return VElem{}, false
		}
		if c, ok := t.Args[0].(VTerm); ok && c.Fn == "chan idle" {
			return c.Args[0].(VElem), true
		}
		return VElem{}, false
	}
	for _, p := range st.trace {
		switch p.Kind {
		case POne:
			if e, ok := w(p.V); ok {
				out = append(out, Piece{Kind: POne, V: e})
			}
		case PEv:
			for _, v := range p.V.(VTuple).F {
				e, ok := w(v)
				if !ok {
					continue
				}
				if e.B != g.idle || !e.Idx.isZero() && !e.Idx.Eq(S(0)) {
					x.fail("closes %s", x.show(e))
				}
				out = append(out, Piece{Kind: PSeg, B: e.B, From: p.From, To: p.To})
			}
		default:
			for _, v := range []Val{p.V} {
				hit := false
				scanVal(v, func(v Val) {
					if t, ok := v.(VTerm); ok && t.Fn == "close" {
						hit = true
					}
				})
				if hit {
					x.fail("closes repeatedly: %s", x.show(v))
				}
			}
		}
	}
	return x.normSeq(st, out)
}

// balance checks that the collector has closed exactly what it took out.
func (g *gpool) balance(st *State) {
	x := g.x
	var cut Seq
	if v, ok := st.ghost["cut"].(VArr); ok {
		cut = v.C
	}
	got := g.closed(st)
	if m := x.seqIs(st, "", got, cut); m != "" {
		g.bad(st, "closes the channels of the workers %s, but has taken out %s", x.showSeq(got), x.showSeq(cut))
	}
	if g.has(st, "draining") {
		g.put(st, "drained")
	}
	delete(st.ghost, "cut")
	delete(st.ghost, "gone")
	st.trace = nil
}

func (g *gpool) hooks() {
	x := g.x
	x.H = Hooks{OneType: true}
	guarded := append([]int{g.fIdle, g.fWk}, g.ctrl...)
	open := func(st *State) bool {
		return g.has(st, "in") || g.role == "new" && !g.has(st, "published")
	}
	x.H.Lock = func(st *State, p Val, mode int, lock bool) {
		if !g.field(p, g.fMu) {
			x.fail("another lock")
		}
		if g.role == "new" {
			x.fail("the constructor takes the lock")
		}
		if lock {
			if g.role == "collector" {
				g.balance(st)
			}
			g.section(st)
		} else {
			g.endSection(st)
			if g.discover && g.role == "collector" {
				panic(needSplit{}) // the rest is of no interest
			}
		}
	}
	x.H.Loaded = func(st *State, p Val, t types.Type) (Val, bool) {
		if g.field(p, guarded...) && !open(st) {
			g.bad(st, "reads the pool's state without the lock")
		}
		if q, ok := p.(VPtr); ok && !open(st) {
			if a, ok := st.ghost["array"].(VSlice); ok && a.Obj == q.Obj {
				g.bad(st, "reads the idle workers without the lock")
			}
		}
		w, path, ok := g.workerOf(p)
		if !ok {
			return nil, false
		}
		e := w.(VElem)
		g.owns(st, e, "reads")
		if path != "."+itoa(g.wCh) {
			return x.fresh("time", t), true
		}
		switch e.B.Name {
		case "worker idle":
			if v, ok := st.ghost["gone"]; ok && x.valEq(st, v, e) {
				return VNil{}, true
			}
			return g.chanOf(e, "idle"), true
		case "worker recycled":
			if v, ok := st.ghost["channel recycled"]; ok {
				return v, true
			}
			return g.chanOf(e, "recycled"), true
		}
		v, ok := st.ghost["channel fresh"].(VTerm)
		switch {
		case !ok:
			return VNil{}, true
		case v.Fn == "other":
			return v.Args[0], true
		}
		i := e.Idx.Add(x.num(v.Args[0]))
		return VTerm{Fn: v.Fn, Args: []Val{VElem{g.fresh, i}}, NN: true}, true
	}
	x.H.StoredOpaque = func(st *State, base Val, path string, v Val) bool {
		e, ok := base.(VElem)
		if !ok || !strings.HasPrefix(e.B.Name, "worker") {
			return false
		}
		g.owns(st, e, "writes")
		if path == "?" || path == "" {
			x.fail("a worker is overwritten")
		}
		if path != "."+itoa(g.wCh) {
			return true
		}
		switch e.B.Name {
		case "worker idle":
			if _, nil := v.(VNil); nil && g.role == "collector" {
				st.ghost["gone"] = e
				return true
			}
			g.bad(st, "changes the channel of a running worker")
		case "worker recycled":
			st.ghost["channel recycled"] = v
		default:
			t, ok := v.(VTerm)
			if ok && strings.HasPrefix(t.Fn, "chan made") && len(t.Args) == 1 {
				if f, ok := t.Args[0].(VElem); ok && f.B == e.B {
					st.ghost["channel fresh"] = VTerm{Fn: t.Fn, Args: []Val{VNum{f.Idx.Sub(e.Idx)}}}
					return true
				}
			}
			if _, nil := v.(VNil); nil {
				delete(st.ghost, "channel fresh")
				return true
			}
			st.ghost["channel fresh"] = VTerm{Fn: "other", Args: []Val{v}}
		}
		return true
	}
	x.H.Stored = func(st *State, p Val, v Val) bool {
		if q, ok := p.(VPtr); ok && q.Obj == g.self.Obj && len(q.Path) == 0 && g.self.Obj != 0 {
			x.fail("the pool is overwritten")
		}
		if g.field(p, guarded...) && !open(st) {
			g.bad(st, "changes the pool's state without the lock")
		}
		if q, ok := p.(VPtr); ok && !open(st) {
			if a, ok := st.ghost["array"].(VSlice); ok && a.Obj == q.Obj {
				g.bad(st, "changes the idle workers without the lock")
			}
		}
		return false
	}
	x.H.Alloc = func(st *State, t types.Type) (Val, bool) {
		if !sameGeneric(t, g.wt) {
			return nil, false
		}
		n := K(0)
		if v, ok := st.ghost["made"]; ok {
			n = x.num(v)
		}
		st.ghost["made"] = VNum{n.AddI(1)}
		if g.role != "new" {
			delete(st.ghost, "channel fresh")
		}
		return VElem{g.fresh, n}, true
	}
	x.H.MakeChan = func(st *State, size Val, t types.Type) (Val, bool) {
		if ct, ok := under(structOf(g.wt).Field(g.wCh).Type()).(*types.Chan); !ok || !isTP(ct.Elem()) || !isTP(under(t).(*types.Chan).Elem()) {
			return nil, false
		}
		n := K(0)
		if v, ok := st.ghost["made"]; ok {
			n = x.num(v)
		}
		room := "?"
		if k, ok := x.num(size).constInt(); ok {
			room = itoa(int(k))
		} else if x.known(st, GE(x.num(size), K(1))) {
			room = "1"
		}
		return VTerm{Fn: "chan made " + room + " at " + x.where(), Args: []Val{VElem{g.fresh, n}}, NN: true, T: t}, true
	}
	x.H.PoolNode = func(st *State, t types.Type) Val {
		if g.role == "new" {
			return nil
		}
		if g.has(st, "recycled") {
			x.fail("two recycled workers")
		}
		g.put(st, "recycled")
		return VElem{g.recycled, K(0)}
	}
	x.H.Call = func(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
		switch name {
		case "time.Now", "(time.Time).Add", "(time.Time).UnixNano", "(time.Time).Unix", "time.Since", "(time.Time).Sub", "(time.Time).UnixMilli", "(time.Time).UTC":
			t := sig.Results().At(0).Type()
			if isInt(t) {
				return ret(st, x.fresh("time", t)), true
			}
			return ret(st, VTerm{Fn: "time", T: t}), true
		case "(time.Time).Before", "(time.Time).After":
			return x.fork(st, func(st *State) []Ret { return ret(st, bconst(x.choice(st, "before?"))) }), true
		case "time.NewTicker", "time.NewTimer":
			pt := deref(sig.Results().At(0).Type())
			v, ok := x.zero(pt).(VStruct)
			if !ok {
				x.fail("%s", name)
			}
			f := fieldBy(pt, 0, isChan, "C")
			v.F = append([]Val(nil), v.F...)
			v.F[f] = VTerm{Fn: "ticks", NN: true, T: structOf(pt).Field(f).Type()}
			return ret(st, x.newMem(st, v, pt)), true
		case "time.After", "time.Tick":
			return ret(st, VTerm{Fn: "ticks", NN: true, T: sig.Results().At(0).Type()}), true
		case "(*time.Ticker).Stop", "(*time.Ticker).Reset":
			return ret(st), true
		case "(*time.Timer).Stop", "(*time.Timer).Reset":
			return x.fork(st, func(st *State) []Ret { return ret(st, bconst(x.choice(st, "stopped?"))) }), true
		case "runtime.Gosched":
			return ret(st), true
		}
		if strings.HasPrefix(name, "call:") && isFn(args[0], "handler") {
			if g.has(st, "in") {
				g.bad(st, "runs a task under the pool's lock")
			}
			if g.role != "worker" {
				g.bad(st, "runs a task outside the workers")
				return ret(st), true
			}
			if ph := g.mark(st, "phase"); ph != "got" {
				g.bad(st, "runs a task %s", map[string]string{"idle": "it has not received", "handled": "twice", "closed": "although its channel is closed"}[ph])
			} else if !x.valEq(st, args[1], st.ghost["task"]) {
				g.bad(st, "runs %s instead of its task", x.show(args[1]))
			}
			st.ghost["phase"] = VTerm{Fn: "handled"}
			return ret(st), true
		}
		return nil, false
	}
	x.H.Event = func(st *State, ev VTerm) { g.event(st, ev) }
	x.H.Head = func(st *State, waits bool) {
		if g.has(st, "dead") {
			panic(needSplit{}) // cannot happen
		}
		if waits && !g.has(st, "in") {
			if g.role == "collector" {
				g.balance(st)
			}
			st.trace = nil
		}
	}
}

// sameGeneric compares named types up to their type arguments.
func sameGeneric(a, b types.Type) bool {
	n, ok1 := types.Unalias(a).(*types.Named)
	m, ok2 := types.Unalias(b).(*types.Named)
	return ok1 && ok2 && n.Origin() == m.Origin()
}

// owns checks that a worker may be touched here.
func (g *gpool) owns(st *State, e VElem, does string) {
	x := g.x
	switch g.role {
	case "worker":
		w, ok := st.ghost["self"]
		if !ok || !x.valEq(st, w, e) {
			if !g.has(st, "in") {
				g.bad(st, "%s another worker", does)
			}
			return
		}
		if ph := g.mark(st, "phase"); (ph == "idle" || ph == "closed") && !(g.has(st, "in") && ph == "idle") {
			g.bad(st, "%s its worker, which it has given away", does)
		}
	case "run":
		if e.B != g.idle || g.has(st, "in") && does == "reads" {
			return
		}
		if t, ok := st.ghost["took"]; ok && x.valEq(st, t, e) {
			return
		}
		if g.has(st, "in") {
			// judged when the section ends
			return
		}
		g.bad(st, "%s a worker that is not its own", does)
	case "collector":
		if e.B != g.idle || g.has(st, "in") && does == "reads" {
			return
		}
		if v, ok := st.ghost["cut"].(VArr); ok {
			for _, p := range v.C {
				if p.B == e.B && x.known(st, GE(e.Idx, p.From)) && x.known(st, LT(e.Idx, p.To)) {
					return
				}
			}
		}
		if !g.has(st, "in") || does != "reads" {
			g.bad(st, "%s a worker that is not its own", does)
		}
	}
}

func (g *gpool) event(st *State, ev VTerm) {
	x := g.x
	ch := func() Val { return ev.Args[0] }
	if g.has(st, "dead") {
		return
	}
	switch ev.Fn {
	case "lock", "rlock", "unlock", "runlock", "put":
	case "go":
		switch g.role {
		case "new":
			if !g.isPoolWorker(ev) {
				g.put(st, "published")
			}
		case "run":
			if g.has(st, "started") {
				g.bad(st, "starts a second worker")
			}
			st.ghost["started"] = VTuple{ev.Args}
		default:
			g.bad(st, "starts a goroutine")
		}
	case "send":
		switch {
		case g.role == "run":
			if g.has(st, "sent") {
				g.bad(st, "hands the task out twice")
			}
			if !x.valEq(st, ev.Args[1], g.task) {
				g.bad(st, "hands out %s instead of the task", x.show(ev.Args[1]))
			}
			st.ghost["sent"] = ch()
		case g.role == "stop" && x.valEq(st, ch(), g.stopCh):
			if g.has(st, "in") {
				g.bad(st, "waits for the collector while it holds the lock")
			}
			if g.has(st, "signalled") || !g.has(st, "first") && g.state(st) > 0 {
				g.bad(st, "may signal a second time, which nobody receives")
			}
			g.put(st, "signalled")
			g.stopSends = true
			if g.state(st) == 0 {
				g.sigAfter = false
			}
		default:
			g.bad(st, "sends to %s", x.show(ch()))
		}
	case "close":
		switch {
		case g.role == "collector":
			if c, ok := ch().(VTerm); !ok || c.Fn != "chan idle" {
				g.bad(st, "closes %s", x.show(ch()))
			}
		case g.role == "stop" && x.valEq(st, ch(), g.stopCh):
			if g.has(st, "signalled") || !g.has(st, "first") {
				g.bad(st, "may close the signal channel a second time, which panics")
			}
			g.put(st, "signalled")
			g.stopCloses = true
		default:
			g.bad(st, "closes %s", x.show(ch()))
		}
	case "recv", "recvclosed":
		if g.has(st, "in") {
			g.bad(st, "waits while it holds the lock")
		}
		switch {
		case g.role == "worker":
			switch ph := g.mark(st, "phase"); {
			case g.has(st, "dec"):
				g.bad(st, "waits for a task after it was taken off the count")
			case ph == "got":
				g.bad(st, "drops a task")
			case ph == "handled":
				g.bad(st, "waits for a task without being idle: nobody can give it one")
			case ph == "closed":
				// receives again from a closed channel
				if ev.Fn == "recv" {
					g.put(st, "dead")
				}
				return
			}
			if !x.valEq(st, ch(), st.ghost["chan"]) {
				g.bad(st, "waits on %s, but is known by %s", x.show(ch()), x.show(st.ghost["chan"]))
			}
			if ev.Fn == "recvclosed" {
				st.ghost["phase"] = VTerm{Fn: "closed"}
				return
			}
			st.ghost["phase"] = VTerm{Fn: "got"}
			st.ghost["task"] = ev.Args[1]
		case g.role == "collector":
			if x.valEq(st, ch(), g.stopCh) {
				if ev.Fn == "recv" && !g.stopSends || ev.Fn == "recvclosed" && !g.stopCloses {
					g.put(st, "dead")
					return
				}
				g.put(st, "signalled")
				if g.sigAfter && g.state(st) == 0 && len(g.states) > 1 {
					g.setState(st, 1)
				}
			}
		default:
			g.bad(st, "waits for %s", x.show(ch()))
		}
	}
}

// isPoolWorker reports whether a goroutine started is a worker: it is given
// one.
func (g *gpool) isPoolWorker(ev VTerm) bool {
	hit := false
	scanVals(ev.Args, func(v Val) {
		if e, ok := v.(VElem); ok && strings.HasPrefix(e.B.Name, "worker") {
			hit = true
		}
	})
	return hit
}

// made interprets the constructor and passes on the pools it makes.
func newPools(c *Case, f func(g *gpool, st *State, trace Seq)) {
	x := c.X
	x.InitPkg(x.P.pkgs[poolPkg])
	g := poolTypes(x.P)
	g.c, g.x = c, x
	g.role = "new"
	for _, b := range []struct {
		p    **Base
		name string
	}{{&g.idle, "worker idle"}, {&g.fresh, "worker fresh"}, {&g.recycled, "worker recycled"}, {&g.shared, "worker of the others"}} {
		*b.p = x.base(b.name, types.NewPointer(g.wt))
		(*b.p).NN = true
	}
	g.hooks()
	fn := x.P.Fn(poolPkg, "NewTimedPool")
	ps := fn.Signature.Params()
	arg := func(i int) VNum { return x.fresh(ps.At(i).Name(), ps.At(i).Type()).(VNum) }
	max, idle, gc, pre := arg(0), arg(2), arg(3), arg(4)
	g.max = max.L
	g.args = map[Sym]bool{}
	for _, v := range []VNum{max, idle, gc} {
		k, _ := v.L.isSym()
		g.args[k] = true
	}
	okc := 0
	for _, h := range []Val{opaqueFn("handler"), VNil{}} {
		_, nilH := h.(VNil)
		for _, q := range c.Call(NewState(), fn, nil, max, h, idle, gc, pre) {
			st := q.st
			if q.pan != nil {
				c.bad(st, "NewTimedPool: %s", panMsg(q.pan))
				continue
			}
			if _, fine := q.vals[1].(VNil); !fine {
				if !x.isNil(st, q.vals[0]) {
					c.bad(st, "NewTimedPool gives a pool and an error")
				}
				if len(st.trace) > 0 {
					c.bad(st, "NewTimedPool starts something although it fails")
				}
				if !nilH && !x.known(st, LE(g.max, K(0))) && !x.known(st, LE(idle.L, K(0))) && !x.known(st, LE(gc.L, K(0))) {
					c.bad(st, "NewTimedPool refuses arguments that may be valid")
				}
				continue
			}
			if nilH || !x.known(st, GE(g.max, K(1))) || !x.known(st, GE(idle.L, K(1))) || !x.known(st, GE(gc.L, K(1))) {
				c.bad(st, "NewTimedPool accepts arguments that may be invalid")
				continue
			}
			self, ok := q.vals[0].(VPtr)
			if !ok {
				c.bad(st, "NewTimedPool gives %s without an error", x.show(q.vals[0]))
				continue
			}
			okc++
			e := *g
			e.self = self
			tr := st.trace
			st.trace = nil
			f(&e, st, tr)
		}
	}
	if okc == 0 {
		c.bad(nil, "NewTimedPool never gives a pool")
	}
}

// readd prepares what is known of a pool that was made: the goroutines, and
// what its control fields may hold.
func (g *gpool) begin(st *State, trace Seq) (gen *State, col VTerm, pre []Piece) {
	x := g.x
	n := 0
	for _, p := range trace {
		switch p.Kind {
		case POne, PEv:
			vs := []Val{p.V}
			if p.Kind == PEv {
				vs = p.V.(VTuple).F
			}
			for _, v := range vs {
				t, ok := v.(VTerm)
				if !ok || t.Fn != "go" {
					continue
				}
				if g.isPoolWorker(t) {
					pre = append(pre, Piece{Kind: p.Kind, V: t, From: p.From, To: p.To})
					continue
				}
				if p.Kind != POne {
					x.fail("collectors are started in a loop")
				}
				n++
				col = t
			}
		default:
			x.fail("goroutines are started: %s", x.showSeq(trace))
		}
	}
	if n != 1 {
		g.c.bad(st, "the constructor starts %d collectors", n)
		panic(undecided{"no collector"})
	}
	f, ok := col.Args[0].(VFunc)
	if !ok {
		x.fail("the collector is %s", x.show(col.Args[0]))
	}
	a := modified(x.P, f.Fn, g.t)
	b := modified(x.P, x.P.Fn(poolPkg, "TimedPool.Stop"), g.t)
	ts := structOf(g.t)
	var s []Val
	for i := 0; i < ts.NumFields(); i++ {
		if i == g.fMu || i == g.fIdle || i == g.fWk || !a[i] && !b[i] {
			continue
		}
		if _, isS := under(ts.Field(i).Type()).(*types.Struct); isS {
			continue
		}
		g.ctrl = append(g.ctrl, i)
		s = append(s, x.getF(st, g.self, i))
	}
	for i := 0; i < ts.NumFields(); i++ {
		if isChan(ts.Field(i).Type()) {
			g.stopCh = x.getF(st, g.self, i)
		}
	}
	if g.stopCh == nil {
		g.stopCh = VNil{}
	}
	g.states = [][]Val{s}
	// what was made before matters no more: the sections start from arbitrary
	// idle workers
	st = st.clone()
	for _, f := range []int{g.fIdle, g.fWk} {
		if s, ok := x.getF(st, g.self, f).(VSlice); ok {
			delete(st.objs, s.Obj)
		}
		x.setF(st, g.self, f, x.zero(ts.Field(f).Type()))
	}
	var cons []Con
	for _, c := range st.cons {
		known := true
		for _, t := range c.L.T {
			known = known && g.args[t.S]
		}
		if known {
			cons = append(cons, c)
		}
	}
	st.cons = cons
	return st, col, pre
}

// find finds the states a stopped pool may be in.
func (g *gpool) find(st *State, col VTerm) {
	x := g.x
	real := g.c
	g.c = &Case{X: x, r: real.r}
	g.discover = true
	g.sigAfter = true
	for n := 0; n != len(g.states); {
		n = len(g.states)
		if n > 6 {
			x.fail("too many states of a stopped pool")
		}
		g.stop(st)
		g.collect(st, col)
	}
	g.c, g.discover = real, false
}

func (g *gpool) from(st *State, role string) *State {
	g.role = role
	g.hooks()
	s := st.clone()
	s.trace = nil
	gh := map[string]Val{}
	for _, k := range []string{"channel fresh", "channel recycled", "recycled"} {
		if v, ok := s.ghost[k]; ok {
			gh[k] = v
		}
	}
	s.ghost = gh
	return s
}

func (g *gpool) stop(st *State) {
	c, x := g.c, g.x
	s := g.from(st, "stop")
	c.Each(c.Call(s, x.P.Fn(poolPkg, "TimedPool.Stop"), nil, g.self), noPan(func(st *State, q Ret) string {
		if len(st.locks) > 0 {
			return "returns holding the lock"
		}
		if g.state(st) == 0 {
			return "returns although the pool still takes tasks"
		}
		return ""
	}))
}

func (g *gpool) collect(st *State, col VTerm) {
	c, x := g.c, g.x
	s := g.from(st, "collector")
	fn := col.Args[0].(VFunc)
	x.P.build(fn.Fn)
	c.site = x.P.fnPos(fn.Fn)
	n := 0
	for _, q := range x.invoke(s, fn, col.Args[1:], fn.Fn.Signature) {
		if q.pan == nil && g.has(q.st, "dead") {
			continue
		}
		n++
		c.Each([]Ret{q}, noPan(func(st *State, q Ret) string {
			if len(st.locks) > 0 {
				return "returns holding the lock"
			}
			g.balance(st)
			if !g.has(st, "drained") {
				return "the collector ends although the pool is not stopped, or leaves idle workers running"
			}
			if !g.has(st, "signalled") {
				g.leavesEarly = true
			}
			return ""
		}))
	}
	if n == 0 {
		c.bad(nil, "the collector never ends: the idle workers of a stopped pool are left running")
	}
}

// work interprets a worker from the point where it was started.
func (g *gpool) work(st *State, args []Val, w VElem, ch Val) {
	c, x := g.c, g.x
	s := g.from(st, "worker")
	s.ghost["self"] = w
	s.ghost["chan"] = ch
	s.ghost["phase"] = VTerm{Fn: "idle"}
	fn, ok := args[0].(VFunc)
	if !ok {
		x.fail("the worker is %s", x.show(args[0]))
	}
	x.P.build(fn.Fn)
	c.site = x.P.fnPos(fn.Fn)
	n := 0
	for _, q := range x.invoke(s, fn, args[1:], fn.Fn.Signature) {
		if q.pan == nil && g.has(q.st, "dead") {
			continue
		}
		n++
		c.Each([]Ret{q}, noPan(func(st *State, q Ret) string {
			if len(st.locks) > 0 {
				return "returns holding the lock"
			}
			switch ph := g.mark(st, "phase"); {
			case ph == "idle":
				return "a worker ends while it is idle: the next task given to it is lost"
			case ph == "got":
				return "a worker ends without handling its task"
			case !g.has(st, "dec"):
				return "a worker ends without being taken off the count"
			}
			return ""
		}))
	}
	if n == 0 {
		c.bad(nil, "a worker never ends")
	}
}

// run interprets Run; each worker it starts is passed on.
func (g *gpool) run(st *State, f func(st *State, args []Val, w VElem, ch Val)) {
	c, x := g.c, g.x
	s := g.from(st, "run")
	fn := x.P.Fn(poolPkg, "TimedPool.Run")
	g.task = x.tok("task", fn.Signature.Params().At(0).Type())
	yes, no, fresh := 0, 0, 0
	c.Each(c.Call(s, fn, nil, g.self, g.task), noPan(func(st *State, q Ret) string {
		if len(st.locks) > 0 {
			return "returns holding the lock"
		}
		sent, isSent := st.ghost["sent"]
		took, isTook := st.ghost["took"]
		args, isNew := st.ghost["started"].(VTuple)
		if isNew != g.has(st, "grown") {
			return "the number of workers is not raised by one for the one worker started"
		}
		if !x.truth(st, q.vals[0]) {
			no++
			switch {
			case isSent:
				return "refuses a task but hands it out"
			case isTook, isNew:
				return "refuses a task but keeps a worker for it: that worker is lost"
			case !g.has(st, "no room"):
				return "refuses a task although a worker may be idle, or may be started"
			}
			return ""
		}
		yes++
		switch {
		case !isSent:
			return "accepts a task but hands it to no worker"
		case isTook && isNew:
			return "keeps two workers for one task"
		case isTook:
			if m := x.valIs(st, "the channel of the worker taken", sent, g.chanOf(took, "idle")); m != "" {
				return m
			}
		case isNew:
			fresh++
			var w *VElem
			scanVals(args.F, func(v Val) {
				if e, ok := v.(VElem); ok && strings.HasPrefix(e.B.Name, "worker") && w == nil {
					w = &e
				}
			})
			if w == nil {
				x.fail("the goroutine started is given no worker")
			}
			if m := g.room(sent); m != "" {
				return m
			}
			f(st, args.F, *w, sent)
		default:
			return "hands a task to a worker it has not got"
		}
		return ""
	}))
	if yes == 0 || no == 0 || fresh == 0 {
		c.bad(nil, "never accepts, never refuses or never starts a worker")
	}
}

// room checks that a task can be put into a channel without waiting.
func (g *gpool) room(ch Val) string {
	t, ok := ch.(VTerm)
	if !ok || !strings.HasPrefix(t.Fn, "chan made ") {
		return "a worker is started with the channel " + g.x.show(ch)
	}
	if n := strings.Fields(t.Fn)[2]; n == "0" || n == "?" || strings.HasPrefix(n, "-") {
		return "the channel of a worker has no room: handing out a task waits for the worker"
	}
	return ""
}

// fresh checks a pool that was just made.
func (g *gpool) made(st *State, pre []Piece) {
	c, x := g.c, g.x
	wk := x.num(x.getF(st, g.self, g.fWk))
	idle, _ := x.content(st, x.getF(st, g.self, g.fIdle))
	n := K(0)
	for _, p := range pre {
		n = n.Add(p.Len())
	}
	if !x.eqLin(st, wk, n) {
		c.bad(st, "a new pool counts %s workers, but starts %s", x.l(wk), x.l(n))
	}
	if !x.known(st, LE(n, g.max)) {
		c.bad(st, "a new pool may start more workers than allowed")
	}
	var want Seq
	for _, p := range pre {
		var w *VElem
		scanVals(p.V.(VTerm).Args, func(v Val) {
			if e, ok := v.(VElem); ok && strings.HasPrefix(e.B.Name, "worker") && w == nil {
				w = &e
			}
		})
		if p.Kind == POne {
			want = append(want, Piece{Kind: POne, V: *w})
		} else {
			if !w.Idx.Eq(S(0)) && !w.Idx.isZero() {
				x.fail("preheated workers %s", x.show(*w))
			}
			want = append(want, Piece{Kind: PSeg, B: w.B, From: p.From, To: p.To})
		}
	}
	if m := x.seqIs(st, "the idle workers of a new pool", idle, want); m != "" {
		c.bad(st, "%s", m)
	}
}

// preheated passes a typical preheated worker on.
func (g *gpool) preheated(st *State, pre []Piece, f func(st *State, args []Val, w VElem, ch Val)) {
	x := g.x
	for _, p := range pre {
		if x.known(st, LE(p.Len(), K(0))) {
			continue
		}
		t := p.V.(VTerm)
		if p.Kind == PEv {
			at := p.From
			w := &walker{x: x, raw: true, lin: func(l Lin) Lin { return l.Subst(0, at) }}
			t = w.v(t).(VTerm)
		}
		var e *VElem
		scanVals(t.Args, func(v Val) {
			if w, ok := v.(VElem); ok && strings.HasPrefix(w.B.Name, "worker") && e == nil {
				e = &w
			}
		})
		s := g.from(st, "run")
		ch := g.workerChan(s, *e)
		if m := g.room(ch); m != "" {
			g.c.bad(st, "preheated: %s", m)
		}
		f(st, t.Args, *e, ch)
	}
}

func init() {
	obl := func(r *Run, name string, made func(g *gpool, st *State, pre []Piece), f func(g *gpool, st *State, col VTerm)) {
		r.Obl(poolPkg+" "+name, func(c *Case) {
			seen := map[string]*gpool{}
			newPools(c, func(g *gpool, st *State, tr Seq) {
				gen, col, pre := g.begin(st, tr)
				k := g.x.showState(gen) + g.x.show(col)
				o := seen[k]
				if o == nil {
					g.find(gen, col)
					seen[k] = g
				} else {
					g.states, g.stopSends, g.stopCloses, g.sigAfter = o.states, o.stopSends, o.stopCloses, o.sigAfter
				}
				if made != nil {
					made(g, st, pre)
				}
				if o == nil && f != nil {
					f(g, gen, col)
				}
			})
		})
	}
	submit := func(r *Run) {
		obl(r, "TimedPool.Run and its workers", nil, func(g *gpool, st *State, col VTerm) {
			g.run(st, func(st *State, args []Val, w VElem, ch Val) {
				task := g.task
				g.work(st, args, w, ch)
				g.role = "run"
				g.task = task
				g.hooks()
			})
		})
		obl(r, "preheated workers", func(g *gpool, st *State, pre []Piece) {
			g.made(st, pre)
			g.preheated(st, pre, g.work)
			g.c.paths++
		}, nil)
		obl(r, "collector", nil, func(g *gpool, st *State, col VTerm) { g.collect(st, col) })
	}
	register(&Prop{ID: "C11", Title: "the pool runs accepted tasks once", Pkgs: []string{poolPkg}, Min: 3,
		Rule: "rely-guarantee typestate: an accepted task is sent once to a worker taken from the idle ones or started in a critical section of a pool that is not stopped; a worker handles what it receives once before it is idle again or ends; only channels of idle workers taken out are closed",
		Run:  submit})
	register(&Prop{ID: "C12", Title: "the pool's worker limit and stop", Pkgs: []string{poolPkg}, Min: 5,
		Rule: "the count of workers changes by one under the lock, below the maximum, with each start and each end; a stopped pool stays so and takes, starts or keeps no worker; the signal to the collector is given once and without the lock; arguments are refused exactly if one is invalid",
		Run: func(r *Run) {
			submit(r)
			obl(r, "TimedPool.Stop", nil, func(g *gpool, st *State, col VTerm) {
				g.stop(st)
				if !g.stopSends {
					return
				}
				g.collect(st, col)
				if n, ok := g.stopCh.(VTerm); ok && g.leavesEarly {
					if k, ok := g.x.num(n.Args[0]).constInt(); !ok || k < 1 {
						g.c.bad(st, "Stop waits for a collector that may have ended")
					}
				}
			})
			obl(r, "TimedPool.Workers", nil, func(g *gpool, st *State, col VTerm) {
				c, x := g.c, g.x
				s := g.from(st, "reader")
				c.Each(c.Call(s, x.P.Fn(poolPkg, "TimedPool.Workers"), nil, g.self), noPan(func(st *State, q Ret) string {
					if len(st.locks) > 0 {
						return "returns holding the lock"
					}
					w, ok := st.ghost["count"]
					if !ok {
						return "reports a count it has not read under the lock"
					}
					return x.numIs(st, "number of workers", q.vals[0], x.num(w))
				}))
			})
		}})
}
