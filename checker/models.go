package main

// Calls: inlining, builtins, opaque functions and the standard library.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoPath = "github.com/unsafe-risk/utilx"

var inlineStd = map[string]bool{"encoding/binary": true, "slices": true, "maps": true, "cmp": true}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkg(o)
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (x *Exec) inlinable(fn *ssa.Function) bool {
	if x.H.Inline != nil {
		if in, known := x.H.Inline(fn); known {
			return in
		}
	}
	p := fnPkg(fn)
	switch fn.String() {
	case "sort.Search", "sort.Find":
		return true
	}
	if fn.Synthetic != "" && fn.Blocks != nil {
		return true
	}
	return p == repoPath || strings.HasPrefix(p, repoPath+"/") || strings.HasPrefix(p, "golang.org/x/exp/") || inlineStd[p] || p == ""
}

// invoke calls fn.
func (x *Exec) invoke(st *State, fn Val, args []Val, sig *types.Signature) []Ret {
	switch f := fn.(type) {
	case VFunc:
		name := f.Fn.String()
		if f.Fn.Name() == "init" && f.Fn.Synthetic == "package initializer" {
			return ret(st) // of an imported package
		}
		if x.H.Call != nil {
			if rs, ok := x.H.Call(st, name, args, sig); ok {
				return rs
			}
		}
		if x.inlinable(f.Fn) {
			if f.Fn.Blocks == nil {
				x.P.build(f.Fn)
			}
			if f.Fn.Blocks != nil {
				return x.callFn(st, f.Fn, f.TM, args, f.Bind)
			}
		}
		return x.fork(st, func(s *State) []Ret { return x.external(s, name, args, sig) })
	case VTerm:
		if strings.HasPrefix(f.Fn, "builtin:") {
			return x.fork(st, func(s *State) []Ret { return x.builtin(s, f.Fn[8:], args, sig) })
		}
		if strings.HasPrefix(f.Fn, "invoke:") {
			if x.H.Call != nil {
				if rs, ok := x.H.Call(st, f.Fn, args, sig); ok {
					return rs
				}
			}
			return x.fork(st, func(s *State) []Ret {
				if rs, ok := x.invokeStd(s, f.Fn, args, sig); ok {
					return rs
				}
				return x.opaqueCall(s, f.Fn, args, sig)
			})
		}
		if x.H.Call != nil {
			if rs, ok := x.H.Call(st, "call:"+f.Fn, append([]Val{f}, args...), sig); ok {
				return rs
			}
		}
		return x.fork(st, func(s *State) []Ret {
			if !f.NN && x.isNil(s, f) {
				panic(goPanic{"nil", "call of nil function"})
			}
			return x.opaqueCall(s, "call:", append([]Val{f}, args...), sig)
		})
	case VElem:
		if x.H.Call != nil {
			if rs, ok := x.H.Call(st, "call:", append([]Val{f}, args...), sig); ok {
				return rs
			}
		}
		return x.fork(st, func(s *State) []Ret {
			if x.isNil(s, f) {
				panic(goPanic{"nil", "call of nil function"})
			}
			return x.opaqueCall(s, "call:", append([]Val{f}, args...), sig)
		})
	case VNil:
		return x.fork(st, func(s *State) []Ret { panic(goPanic{"nil", "call of nil function"}) })
	}
	x.fail("call of %s", x.show(fn))
	return nil
}

// opaqueCall records a call of unknown code as an event and makes up results.
func (x *Exec) opaqueCall(st *State, name string, args []Val, sig *types.Signature) []Ret {
	as := make([]Val, len(args))
	for i, a := range args {
		as[i] = x.argVal(st, a)
	}
	ev := VTerm{Fn: name, Args: as}
	res := x.results(st, ev, sig)
	x.event(st, ev)
	out := []Ret{{st: st, vals: res}}
	if x.opPan {
		p := st.clone()
		out = append(out, Ret{st: p, pan: &Pan{Kind: "callback", Msg: "callback panics", Pos: x.where(), Fn: x.curFn()}})
	}
	return out
}

// argVal is how an argument appears in an event: slices by content.
func (x *Exec) argVal(st *State, a Val) Val {
	a = x.unTag(a)
	if s, ok := a.(VSlice); ok {
		return x.snapshot(st, s)
	}
	return a
}

func (x *Exec) results(st *State, ev VTerm, sig *types.Signature) []Val {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	var res []Val
	if t, ok := x.tmplIndex([]Val{ev}); ok {
		tm := x.tmpl(ev, t)
		key := x.key(tm)
		occ := 0
		good := true
		for _, p := range st.trace {
			switch p.Kind {
			case POne:
				t2, ok := x.tmplIndex([]Val{p.V})
				if !ok || x.key(x.tmpl(p.V, t2)) != key {
					continue
				}
				if x.decideEQ(st, t2.Sub(t)) {
					occ++
				}
			case PEv:
				n := 0
				for _, e := range p.V.(VTuple).F {
					t2, ok := x.tmplIndex([]Val{e})
					if ok && x.key(x.tmpl(e, t2)) == key {
						n++
						if k, c := t2.Sub(S(0)).constInt(); !c || k != 0 {
							good = false
						}
					}
				}
				if n > 0 && x.decideGE(st, t.Sub(p.From)) && x.decideGE(st, p.To.Sub(t).AddI(-1)) {
					occ += n
				}
			}
		}
		if good {
			for k := 0; k < n; k++ {
				b := x.base(fmt.Sprintf("res%d:%s#%d", k, key, occ), sig.Results().At(k).Type())
				res = append(res, x.elem(b, t))
			}
			return res
		}
	}
	for k := 0; k < n; k++ {
		res = append(res, x.fresh(fmt.Sprintf("res%d:%s", k, ev.Fn), sig.Results().At(k).Type()))
	}
	return res
}

// pure is an uninterpreted function of its arguments.
func (x *Exec) pure(st *State, name string, args []Val, sig *types.Signature, nn bool) []Ret {
	var as []Val
	for _, a := range args {
		as = append(as, x.pureArg(st, a))
	}
	var res []Val
	n := sig.Results().Len()
	for k := 0; k < n; k++ {
		fn := "fn:" + name
		if n > 1 {
			fn += fmt.Sprintf("#%d", k)
		}
		res = append(res, x.termV(VTerm{Fn: fn, Args: as, NN: nn}, sig.Results().At(k).Type()))
	}
	return []Ret{{st: st, vals: res}}
}

func (x *Exec) pureArg(st *State, a Val) Val {
	a = x.argVal(st, a)
	if f, ok := a.(VIface); ok {
		return VIface{f.T, x.pureArg(st, f.V)}
	}
	if ar, ok := a.(VArr); ok {
		var c Seq
		for _, p := range ar.C {
			if p.Kind == POne {
				p.V = x.pureArg(st, p.V)
			}
			c = append(c, p)
		}
		return VArr{c, ar.N}
	}
	return a
}

func ret(st *State, vs ...Val) []Ret { return []Ret{{st: st, vals: vs}} }

func (x *Exec) builtin(st *State, name string, args []Val, sig *types.Signature) []Ret {
	switch name {
	case "append":
		et := coreOf(sig.Params().At(0).Type()).(*types.Slice).Elem()
		return ret(st, x.appendSlice(st, args[0], args[1], et))
	case "copy":
		return ret(st, VNum{x.copySlice(st, args[0], args[1])})
	case "len":
		return ret(st, VNum{x.lenOf(st, args[0])})
	case "cap":
		switch v := args[0].(type) {
		case VNil:
			return ret(st, VNum{K(0)})
		case VSlice:
			return ret(st, VNum{v.Cap})
		case VTerm:
			return ret(st, VNum{S(x.ST.Intern("cap:"+x.key(v), "cap("+x.show(v)+")", big0, maxLen))})
		}
	case "close":
		if x.isNil(st, args[0]) {
			panic(goPanic{"close", "close of nil channel"})
		}
		for _, p := range st.trace {
			if p.Kind == POne {
				if t, ok := p.V.(VTerm); ok && t.Fn == "close" && x.key(t.Args[0]) == x.key(args[0]) {
					panic(goPanic{"close", "close of closed channel"})
				}
			}
		}
		x.event(st, VTerm{Fn: "close", Args: []Val{args[0]}})
		return ret(st)
	case "delete":
		x.hash(st, args[1])
		x.mapUpdate(st, args[0], args[1], nil, true)
		return ret(st)
	case "clear":
		switch v := args[0].(type) {
		case VNil:
			return ret(st)
		case VPtr:
			if o := st.objs[v.Obj]; o != nil && o.Kind == OMap {
				if x.H.Store != nil {
					x.H.Store(st, v, nil)
				}
				n := *o
				n.M = &MapVal{Len: K(0), T: o.M.T, Name: o.M.Name}
				st.objs[v.Obj] = &n
				return ret(st)
			}
		case VSlice:
			if x.decideEQ(st, v.Len) {
				return ret(st)
			}
			o := *st.objs[v.Obj]
			a := x.getPath(st, o.V, v.Path, o.T).(VArr)
			et := coreOf(sig.Params().At(0).Type()).(*types.Slice).Elem()
			a.C = x.seqPut(st, a.C, v.Off, Seq{{Kind: PRep, V: x.zero(et), N: v.Len}}, v.Len)
			o.V = x.setPath(st, o.V, v.Path, a, o.T)
			st.objs[v.Obj] = &o
			return ret(st)
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less bool
			if rn, ok := r.(VNum); ok {
				less = !x.decideGE(st, x.num(a).Sub(rn.L))
			} else {
				less = !x.decideGE(st, x.order(st, a, r))
			}
			if less == (name == "min") {
				r = a
			}
		}
		return ret(st, r)
	case "print", "println":
		return ret(st)
	case "recover":
		if st.panics == nil {
			return ret(st, VNil{})
		}
		p := st.panics
		st.panics = nil
		if p.V != nil {
			return ret(st, p.V)
		}
		t := x.tok("recovered", types.NewInterfaceType(nil, nil))
		t.NN = true
		return ret(st, t)
	case "ssa:wrapnilchk":
		if x.isNil(st, args[0]) {
			panic(goPanic{"nil", "value method called using nil pointer"})
		}
		return ret(st, args[0])
	}
	x.fail("builtin %s on %s", name, x.showVals(args))
	return nil
}

// ---- standard library

var pureExt = map[string]bool{
	"fmt.Sprint": true, "fmt.Sprintf": true, "fmt.Sprintln": true,
	"strconv.FormatBool": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.FormatFloat": true,
	"strconv.Itoa": true, "strconv.ParseInt": true, "strconv.ParseUint": true, "strconv.ParseBool": true, "strconv.ParseFloat": true, "strconv.Atoi": true,
	"time.Unix": true, "time.UnixMilli": true, "time.UnixMicro": true, "time.Date": true, "time.Since": true,
	"strings.ToLower": true, "strings.ToUpper": true, "strings.Repeat": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.Index": true,
	"math.Floor": true, "math.Ceil": true, "math.Abs": true, "math.Sqrt": true, "math.Log": true, "math.Pow": true, "math.Float64bits": true, "math.Inf": true,
	"math/bits.Len64": true, "math/bits.TrailingZeros64": true, "math/bits.LeadingZeros64": true, "math/bits.OnesCount64": true,
}

func (x *Exec) external(st *State, name string, args []Val, sig *types.Signature) []Ret {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		x.lock(st, args[0], 2)
		return ret(st)
	case "(*sync.RWMutex).RLock":
		x.lock(st, args[0], 1)
		return ret(st)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		x.unlock(st, args[0], 2)
		return ret(st)
	case "(*sync.RWMutex).RUnlock":
		x.unlock(st, args[0], 1)
		return ret(st)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		s2 := st.clone()
		x.lock(st, args[0], 2)
		return []Ret{{st: st, vals: []Val{bconst(true)}}, {st: s2, vals: []Val{bconst(false)}}}
	case "(*sync.RWMutex).RLocker":
		x.fail("RLocker")
	case "(*sync.Once).Do":
		f := Fact{"once", []Val{args[0]}}
		done := false
		if v, ok := x.factOf(st, f); ok {
			done = v
		} else if p, ok := args[0].(VPtr); ok && st.objs[p.Obj] != nil && st.objs[p.Obj].Fresh {
			done = false
		} else {
			done = x.decideFact(st, f)
		}
		if done {
			return ret(st)
		}
		x.setFact(st, f, true)
		return x.invoke(st, args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false))
	case "(*sync.Pool).Get":
		return x.poolGet(st, args[0])
	case "(*sync.Pool).Put":
		v := args[1]
		if i, ok := v.(VIface); ok {
			v = i.V
		}
		x.event(st, VTerm{Fn: "put", Args: []Val{args[0], v}})
		if p, ok := v.(VPtr); ok {
			st.pooled = append(st.pooled[:len(st.pooled):len(st.pooled)], p.Obj)
		}
		return ret(st)
	case "runtime.Gosched", "runtime.KeepAlive", "runtime.GC":
		return ret(st)
	case "errors.New":
		s := "?"
		if t, ok := args[0].(VTerm); ok {
			s = t.Fn
		}
		t := x.tok("err:"+s, sig.Results().At(0).Type())
		t.NN = true
		return ret(st, t)
	case "fmt.Errorf":
		t := x.tok("err:fmt", sig.Results().At(0).Type())
		t.NN = true
		return ret(st, t)
	case "errors.As":
		return x.errorsAs(st, args)
	case "errors.Is":
		if x.decide(st, x.equal(st, args[0], args[1], nil)) {
			return ret(st, bconst(true))
		}
		return x.pure(st, name, args, sig, false)
	case "strconv.Itoa":
		return ret(st, VTerm{Fn: "fn:decimal", Args: []Val{args[0], VNum{K(10)}}, T: sig.Results().At(0).Type()})
	case "strconv.FormatInt", "strconv.FormatUint":
		return ret(st, VTerm{Fn: "fn:decimal", Args: args, T: sig.Results().At(0).Type()})
	case "strconv.Atoi":
		// int has 64 bits
		return x.pure(st, "strconv.ParseInt", []Val{args[0], VNum{K(10)}, VNum{K(64)}}, sig, false)
	case "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n", "math/rand/v2.IntN", "math/rand/v2.Int64N", "math/rand/v2.Int32N":
		n := x.num(args[0])
		if !x.decideGE(st, n.AddI(-1)) {
			panic(goPanic{"argument", "invalid argument to " + name})
		}
		i := x.intSym("random", sig.Results().At(0).Type())
		st.cons = append(st.cons, GE(i, K(0)), LT(i, n))
		return ret(st, VNum{i})
	case "time.Now":
		v := x.fresh("now", sig.Results().At(0).Type())
		x.event(st, VTerm{Fn: "ext:now", Args: []Val{v}})
		return ret(st, v)
	case "reflect.TypeOf":
		switch v := args[0].(type) {
		case VIface:
			return ret(st, typeTerm(v.T))
		case VNil:
			return ret(st, VNil{})
		}
		return x.pure(st, name, args, sig, false)
	case "sync/atomic.LoadPointer", "sync/atomic.StorePointer":
	}
	if rs, ok := x.atomics(st, name, args, sig); ok {
		return rs
	}
	if strings.HasPrefix(name, "(*strings.Builder).") {
		return x.builder(st, name[len("(*strings.Builder)."):], args, sig)
	}
	if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "(*log.Logger).") {
		if sig.Results().Len() == 0 && !strings.Contains(name, "Fatal") && !strings.Contains(name, "Panic") {
			return ret(st)
		}
	}
	if pureExt[name] || strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "(time.Duration).") || strings.HasPrefix(name, "(time.Month).") {
		return x.pure(st, name, args, sig, false)
	}
	if strings.HasSuffix(name, ".init") {
		return ret(st)
	}
	// unknown code: it must not reach tracked memory
	for _, a := range args {
		if x.reachesMemory(st, a) {
			x.fail("call of %s, which has no model, with memory it could change", name)
		}
	}
	return x.opaqueCall(st, "ext:"+name, args, sig)
}

func (x *Exec) reachesMemory(st *State, a Val) bool {
	bad := false
	scanVal(a, func(v Val) {
		switch v := v.(type) {
		case VPtr:
			if o := st.objs[v.Obj]; o != nil && !strings.HasPrefix(o.Heap, "ok") {
				bad = true
			}
		case VSlice:
			bad = true
		}
	})
	return bad
}

func typeTerm(t types.Type) VTerm {
	n := "type:" + tstr(t)
	if hasTP(t) {
		n += "?"
	}
	return VTerm{Fn: n, T: t, NN: true}
}

// invokeStd models interface methods of the standard library.
func (x *Exec) invokeStd(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
	if t, ok := args[0].(VTerm); ok && strings.HasPrefix(t.Fn, "type:") {
		switch name {
		case "invoke:Elem":
			switch u := under(t.T).(type) {
			case *types.Pointer:
				return ret(st, typeTerm(u.Elem())), true
			case *types.Slice:
				return ret(st, typeTerm(u.Elem())), true
			}
		case "invoke:String", "invoke:Name", "invoke:Kind", "invoke:PkgPath":
			return x.pure(st, name, args, sig, false), true
		}
	}
	return nil, false
}

func (x *Exec) lock(st *State, p Val, mode int) {
	for _, l := range st.locks {
		if x.sameAddr(l.Ptr, p) && (mode == 2 || l.Mode == 2) {
			panic(goPanic{"deadlock", "lock of a mutex this goroutine already holds"})
		}
	}
	if x.H.Lock != nil {
		x.H.Lock(st, p, mode, true)
	}
	st.locks = append(st.locks[:len(st.locks):len(st.locks)], lockEnt{p, mode})
	n := "lock"
	if mode == 1 {
		n = "rlock"
	}
	x.event(st, VTerm{Fn: n, Args: []Val{p}})
}

func (x *Exec) sameAddr(a, b Val) bool { return x.key(a) == x.key(b) }

func (x *Exec) unlock(st *State, p Val, mode int) {
	for i := len(st.locks) - 1; i >= 0; i-- {
		if l := st.locks[i]; x.sameAddr(l.Ptr, p) && l.Mode == mode {
			if x.H.Lock != nil {
				x.H.Lock(st, p, mode, false)
			}
			st.locks = append(append([]lockEnt{}, st.locks[:i]...), st.locks[i+1:]...)
			n := "unlock"
			if mode == 1 {
				n = "runlock"
			}
			x.event(st, VTerm{Fn: n, Args: []Val{p}})
			return
		}
	}
	panic(goPanic{"unlock", "unlock of a mutex that is not locked"})
}

func (x *Exec) holds(st *State, p Val, mode int) bool {
	for _, l := range st.locks {
		if x.sameAddr(l.Ptr, p) && l.Mode >= mode {
			return true
		}
	}
	return false
}

// poolGet gives a new object, a recycled one, or one put back earlier on
// this path.
func (x *Exec) poolGet(st *State, pool Val) []Ret {
	pp, ok := pool.(VPtr)
	if !ok {
		if x.isNil(st, pool) {
			panic(goPanic{"nil", "nil pool"})
		}
		x.fail("pool %s", x.show(pool))
	}
	pt := x.pointee(st, pp)
	stt, ok := under(pt).(*types.Struct)
	if !ok {
		x.fail("pool type")
	}
	fi := -1
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == "New" {
			fi = i
		}
	}
	newFn := x.load(st, VPtr{pp.Obj, append(pp.Path[:len(pp.Path):len(pp.Path)], PE{F: fi})}, stt.Field(fi).Type())
	var out []Ret
	var nt types.Type
	rec := st.clone()
	sig := stt.Field(fi).Type().(*types.Signature)
	if x.isNil(st, newFn) {
		out = append(out, Ret{st: st.clone(), vals: []Val{VNil{}}})
	} else {
		for _, r := range x.invoke(st.clone(), newFn, nil, sig) {
			out = append(out, r)
			if r.pan == nil {
				if i, ok := r.vals[0].(VIface); ok {
					nt = i.T
				}
			}
		}
	}
	if nt == nil {
		if x.H.PoolNode == nil {
			x.fail("pool without a typed New")
		}
	}
	if x.H.PoolNode != nil {
		s := rec.clone()
		v := x.H.PoolNode(s, nt)
		if v != nil {
			out = append(out, Ret{st: s, vals: []Val{VIface{nt, v}}})
		}
	}
	for i, p := range rec.pooled {
		o := rec.objs[p]
		if o == nil || o.T == nil {
			continue
		}
		if nt != nil && !types.Identical(types.NewPointer(o.T), nt) {
			continue
		}
		s := rec.clone()
		s.pooled = append(append([]int{}, s.pooled[:i]...), s.pooled[i+1:]...)
		out = append(out, Ret{st: s, vals: []Val{VIface{types.NewPointer(o.T), VPtr{Obj: p}}}})
	}
	return out
}

// pointee is the type of the memory p points to.
func (x *Exec) pointee(st *State, p VPtr) types.Type {
	t := st.objs[p.Obj].T
	for _, e := range p.Path {
		switch u := under(t).(type) {
		case *types.Struct:
			t = u.Field(e.F).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		}
	}
	return t
}

func (x *Exec) errorsAs(st *State, args []Val) []Ret {
	tgt, ok := args[1].(VIface)
	if !ok {
		x.fail("errors.As target")
	}
	et := deref(tgt.T)
	if x.isNil(st, args[0]) {
		return ret(st, bconst(false))
	}
	if iv, ok := args[0].(VIface); ok {
		if types.Identical(iv.T, et) {
			x.store(st, tgt.V, iv.V, et)
			return ret(st, bconst(true))
		}
	}
	k := x.decideFact(st, Fact{"as:" + tstr(et), []Val{args[0]}})
	if k {
		x.store(st, tgt.V, x.termV(VTerm{Fn: "as:" + tstr(et), Args: []Val{args[0]}, NN: true}, et), et)
	}
	return ret(st, bconst(k))
}

// ---- strings.Builder

func (x *Exec) builder(st *State, m string, args []Val, sig *types.Signature) []Ret {
	p, ok := args[0].(VPtr)
	if !ok {
		x.fail("builder %s", x.show(args[0]))
	}
	t := types.Typ[types.String]
	o := st.objs[p.Obj]
	cur, isT := x.getPath(st, o.V, p.Path, o.T).(VTerm)
	if !isT || cur.Fn != "concat" {
		cur = VTerm{Fn: "concat", T: t}
	}
	put := func(v VTerm) {
		n := *o
		n.V = x.setPath(st, o.V, p.Path, v, o.T)
		st.objs[p.Obj] = &n
	}
	add := func(v Val) {
		put(VTerm{Fn: "concat", Args: append(append([]Val{}, cur.Args...), x.unTag(v)), T: t})
	}
	nilErr := VNil{}
	switch m {
	case "WriteString":
		add(args[1])
		return ret(st, VNum{x.lenOf(st, args[1])}, nilErr)
	case "WriteRune":
		add(VTerm{Fn: "rune", Args: []Val{args[1]}, T: t})
		return ret(st, x.fresh("n", types.Typ[types.Int]), nilErr)
	case "WriteByte":
		add(VTerm{Fn: "rune", Args: []Val{args[1]}, T: t})
		return ret(st, nilErr)
	case "String":
		cur.Args = flatConcat(cur.Args)
		return ret(st, cur)
	case "Reset":
		put(VTerm{Fn: "concat", T: t})
		return ret(st)
	case "Grow":
		return ret(st)
	case "Len":
		return ret(st, VNum{x.strLen(st, cur)})
	}
	x.fail("builder method %s", m)
	return nil
}

// flatConcat flattens nested concatenations and joins literals.
func flatConcat(as []Val) []Val {
	var r []Val
	for _, a := range as {
		t, ok := a.(VTerm)
		if ok && t.Fn == "concat" {
			for _, b := range flatConcat(t.Args) {
				r = pushStr(r, b)
			}
			continue
		}
		if ok && t.Fn == "rune" {
			if n, k := t.Args[0].(VNum); k {
				if c, k := n.L.constInt(); k && c < 128 {
					a = VTerm{Fn: fmt.Sprintf("str:%q", string(rune(c))), T: t.T}
				}
			}
		}
		r = pushStr(r, a)
	}
	return r
}

func pushStr(r []Val, a Val) []Val {
	if s, ok := litStr(a); ok {
		if s == "" {
			return r
		}
		if len(r) > 0 {
			if p, ok := litStr(r[len(r)-1]); ok {
				r = append([]Val{}, r...)
				r[len(r)-1] = VTerm{Fn: fmt.Sprintf("str:%q", p+s), T: types.Typ[types.String]}
				return r
			}
		}
	}
	return append(r, a)
}

func litStr(v Val) (string, bool) {
	t, ok := v.(VTerm)
	if !ok || !strings.HasPrefix(t.Fn, "str:") {
		return "", false
	}
	s, err := unquote(t.Fn[4:])
	return s, err == nil
}

// ---- atomics

// atomics models sync/atomic as plain accesses unless a hook takes over.
func (x *Exec) atomics(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
	var op string
	var cell Val
	var ct types.Type
	rest := args
	boolCell := false
	switch {
	case strings.HasPrefix(name, "sync/atomic."):
		f := name[len("sync/atomic."):]
		for _, p := range []string{"CompareAndSwap", "Load", "Store", "Add", "Swap"} {
			if strings.HasPrefix(f, p) {
				op = p
			}
		}
		if op == "" {
			return nil, false
		}
		cell = args[0]
		ct = deref(sig.Params().At(0).Type())
		rest = args[1:]
	case strings.HasPrefix(name, "(*sync/atomic."):
		i := strings.LastIndex(name, ".")
		op = name[i+1:]
		cell = args[0]
		rest = args[1:]
		tn := name[len("(*sync/atomic."):]
		tn = tn[:strings.IndexAny(tn, ")[")]
		switch tn {
		case "Bool":
			boolCell = true
			ct = types.Typ[types.Bool]
		case "Int32":
			ct = types.Typ[types.Int32]
		case "Int64":
			ct = types.Typ[types.Int64]
		case "Uint32":
			ct = types.Typ[types.Uint32]
		case "Uint64":
			ct = types.Typ[types.Uint64]
		case "Uintptr":
			ct = types.Typ[types.Uintptr]
		default:
			switch op {
			case "Load", "Swap":
				ct = sig.Results().At(0).Type()
			default:
				ct = sig.Params().At(sig.Params().Len() - 1).Type()
			}
		}
	default:
		return nil, false
	}
	if x.H.Atomic != nil {
		if rs, ok := x.H.Atomic(st, op, cell, rest, ct); ok {
			return rs, true
		}
	}
	_ = boolCell
	get := func() Val { return x.atomicLoad(st, cell, ct) }
	put := func(v Val) { x.atomicStore(st, cell, v, ct) }
	switch op {
	case "Load":
		return ret(st, get()), true
	case "Store":
		put(rest[0])
		return ret(st), true
	case "Add":
		v := VNum{x.wrap(st, x.num(get()).Add(x.num(rest[0])), ct)}
		put(v)
		return ret(st, v), true
	case "Swap":
		v := get()
		put(rest[0])
		return ret(st, v), true
	case "CompareAndSwap":
		if x.decide(st, x.equal(st, get(), rest[0], ct)) {
			put(rest[1])
			return ret(st, bconst(true)), true
		}
		return ret(st, bconst(false)), true
	}
	return nil, false
}

// An atomic.T variable is treated as a cell holding the plain value.
func (x *Exec) atomicLoad(st *State, p Val, t types.Type) Val {
	v := x.load(st, p, t)
	if s, ok := v.(VStruct); ok {
		w := s.F[len(s.F)-1]
		if isBool(t) {
			return x.cmpLin('e', x.num(w), true)
		}
		return w
	}
	return v
}

func (x *Exec) atomicStore(st *State, p Val, v Val, t types.Type) { x.store(st, p, v, t) }
