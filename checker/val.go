package main

// Abstract values, sequences and states.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type (
	VNum  struct{ L Lin }
	VBool struct{ B BX }
	VNil  struct{}
	VTop  struct{}
	// VPtr points into object Obj along Path. A pointer to the start of a
	// list run has an empty path.
	VPtr struct {
		Obj  int
		Path []PE
	}
	VSlice struct {
		Obj           int
		Path          []PE
		Off, Len, Cap Lin
	}
	VStruct struct{ F []Val }
	VArr    struct {
		C Seq
		N Lin
	}
	VTuple struct{ F []Val }
	VFunc  struct {
		Fn   *ssa.Function
		Bind []Val
		TM   TM
	}
	VIface struct {
		T types.Type
		V Val
	}
	// VTerm is an uninterpreted term. Uniq>0 marks a generated token.
	VTerm struct {
		Fn   string
		Uniq int
		Args []Val
		T    types.Type
		NN   bool // known not nil
	}
	// VElem is element Idx of the symbolic sequence Base.
	VElem struct {
		B   *Base
		Idx Lin
	}
)

type PE struct {
	F   int
	Idx *Lin // array index if not nil
	W   bool // a witness about the object, no part of the address
}

type Base struct {
	ID   int
	Name string
	Elem types.Type
	NN   bool // elements are known not nil
	Dist bool // elements are pairwise distinct
	N    Lin  // length, if known
}

// BX is a boolean: 'c' constant, 'g' L>=0, 'e' L==0, 'f' fact.
type BX struct {
	Kind byte
	C    bool
	L    Lin
	F    Fact
	Neg  bool
}

type Fact struct {
	Pred string
	Args []Val
}

type factVal struct {
	F Fact
	V bool
}

const (
	PSeg  = iota // Base[From:To)
	POne         // one value
	PRep         // N copies of V
	PFilt        // the elements of Base[From:To) satisfying Pred, N of them
	PEv          // events: template V for index in [From,To)
	PRev         // Base[From), Base[From-1), ... down to Base[To+1)
	PMix         // N arbitrary elements (content forgotten)
)

type Piece struct {
	Kind     int
	B        *Base
	From, To Lin
	V        Val
	N        Lin
	Pred     *Pred
	Ann      []annEnt
}

// Pred is a fact over element 0 (index symbol 0) of a base.
type Pred struct {
	F   Fact
	Neg bool
}

type annEnt struct {
	F Fact
	V bool
}

type Seq []Piece

func (p Piece) Len() Lin {
	switch p.Kind {
	case PSeg, PEv:
		return p.To.Sub(p.From)
	case PRev:
		return p.From.Sub(p.To)
	case POne:
		return K(1)
	}
	return p.N
}

func (s Seq) Len() Lin {
	n := K(0)
	for _, p := range s {
		n = n.Add(p.Len())
	}
	return n
}

type Obj struct {
	Kind int // OMem, ORun, OMap, OChan
	T    types.Type
	V    Val
	// ORun
	C    Seq
	Next Val
	ND   *NodeDesc
	// OMap
	M *MapVal
	// flags
	Fresh bool // allocated during the analysed call
	Heap  string
}

const (
	OMem = iota
	ORun
	OMap
	OChan
)

type MapUpd struct {
	K   Val
	V   Val
	Del bool
}

type MapVal struct {
	KB, VB *Base // enumeration of the initial content, nil if initially empty
	Name   Val
	LK, LV *Base // the same entries in another order
	Upd    []MapUpd
	Len    Lin
	Gone   Lin // entries of the enumeration deleted from its front
	T      *types.Map
}

func (m *MapVal) gone() Lin {
	if m.Gone.K == nil {
		return K(0)
	}
	return m.Gone
}

// NodeDesc describes a singly linked node type for shape folding.
type NodeDesc struct {
	Named      *types.TypeName
	Data, Next int
	NF         int
}

type Frame struct {
	fn     *ssa.Function
	fi     *fnInfo
	tm     TM
	env    []Val
	bind   []Val
	defers []deferred
}

type deferred struct {
	fn   Val
	args []Val
	sig  *types.Signature
	pos  ssa.Instruction
}

type lockEnt struct {
	Ptr  Val
	Mode int // 1 read, 2 write
}

type opStore struct {
	Ptr  Val
	Path string
	V    Val
}

type State struct {
	frames []*Frame
	objs   map[int]*Obj
	cons   []Con
	facts  map[string]factVal
	trace  Seq
	locks  []lockEnt
	ops    []opStore
	ghost  map[string]Val
	pooled []int
	panics *Pan  // while running deferred calls of a panicking frame
	marks  []int // trace length at the last arrival of each active loop
}

type Pan struct {
	Kind string
	Msg  string
	Pos  string
	Fn   string
	V    Val
}

func (s *State) clone() *State {
	n := &State{
		frames: append([]*Frame(nil), s.frames...),
		objs:   make(map[int]*Obj, len(s.objs)+4),
		cons:   s.cons[:len(s.cons):len(s.cons)],
		facts:  make(map[string]factVal, len(s.facts)+2),
		trace:  s.trace[:len(s.trace):len(s.trace)],
		locks:  s.locks[:len(s.locks):len(s.locks)],
		ops:    s.ops[:len(s.ops):len(s.ops)],
		ghost:  make(map[string]Val, len(s.ghost)),
		pooled: s.pooled[:len(s.pooled):len(s.pooled)],
		panics: s.panics,
		marks:  append([]int(nil), s.marks...),
	}
	if k := len(n.frames); k > 0 {
		n.frames[k-1] = n.frames[k-1].clone()
	}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = append([]Val(nil), f.env...)
	g.defers = f.defers[:len(f.defers):len(f.defers)]
	return &g
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) setObj(id int, o *Obj) { s.objs[id] = o }

// ---- keys and rebuilding walks

// walker rebuilds a value (or a whole state) while writing its shape.
type walker struct {
	x        *Exec
	sb       strings.Builder
	inWit    bool
	lin      func(Lin) Lin
	obj      func(id int) (Val, bool) // substitution of an object pointer
	ren      map[int]int              // renaming of objects
	uren     map[int]int              // renaming of tokens
	raw      bool                     // raw object ids and numbers in the key
	objFloor int
	uniqFl   int
	objNum   map[int]int
	objList  []int
	uniqNum  map[int]int
	piece    func(Piece)
}

func (w *walker) l(l Lin) Lin {
	if w.raw {
		w.sb.WriteString(l.Key())
	} else {
		w.sb.WriteByte('#')
	}
	if w.lin != nil {
		return w.lin(l)
	}
	return l
}

func (w *walker) o(id int) {
	if w.objNum == nil {
		w.objNum = map[int]int{}
	}
	n, ok := w.objNum[id]
	if !ok {
		n = len(w.objList)
		w.objNum[id] = n
		w.objList = append(w.objList, id)
	}
	if w.raw || id < w.objFloor || w.x != nil && w.x.globID[id] {
		fmt.Fprintf(&w.sb, "o%d", id)
	} else {
		fmt.Fprintf(&w.sb, "O%d", n)
	}
}

func (w *walker) rn(id int) int {
	if n, ok := w.ren[id]; ok {
		return n
	}
	return id
}

func (w *walker) path(p []PE) []PE {
	if len(p) == 0 {
		return p
	}
	r := make([]PE, len(p))
	for i, e := range p {
		if e.Idx != nil {
			w.sb.WriteByte('[')
			w.inWit = e.W
			l := w.l(*e.Idx)
			w.inWit = false
			r[i] = PE{Idx: &l, W: e.W}
			w.sb.WriteByte(']')
		} else {
			fmt.Fprintf(&w.sb, ".%d", e.F)
			r[i] = e
		}
	}
	return r
}

func (w *walker) vals(vs []Val) []Val {
	if vs == nil {
		return nil
	}
	r := make([]Val, len(vs))
	w.sb.WriteByte('(')
	for i, v := range vs {
		if i > 0 {
			w.sb.WriteByte(',')
		}
		r[i] = w.v(v)
	}
	w.sb.WriteByte(')')
	return r
}

func (w *walker) fact(f Fact) Fact {
	w.sb.WriteString(f.Pred)
	return Fact{f.Pred, w.vals(f.Args)}
}

func (w *walker) seq(s Seq) Seq {
	r := make(Seq, len(s))
	w.sb.WriteByte('<')
	for i, p := range s {
		q := p
		switch p.Kind {
		case PSeg:
			fmt.Fprintf(&w.sb, "S%d:", p.B.ID)
			q.From = w.l(p.From)
			q.To = w.l(p.To)
		case POne:
			q.V = w.v(p.V)
		case PRep:
			w.sb.WriteString("R")
			q.V = w.v(p.V)
			q.N = w.l(p.N)
		case PRev:
			fmt.Fprintf(&w.sb, "V%d:", p.B.ID)
			q.From = w.l(p.From)
			q.To = w.l(p.To)
		case PMix:
			w.sb.WriteString("X")
			q.N = w.l(p.N)
		case PFilt:
			fmt.Fprintf(&w.sb, "F%d:%s%v", p.B.ID, w.x.factKey(p.Pred.F), p.Pred.Neg)
			q.From = w.l(p.From)
			q.To = w.l(p.To)
			q.N = w.l(p.N)
		case PEv:
			// the template is kept literal: it may only contain the index symbol
			w.sb.WriteString("E")
			w.sb.WriteString(w.x.key(p.V))
			for _, a := range p.Ann {
				fmt.Fprintf(&w.sb, "|%s=%v", w.x.factKey(a.F), a.V)
			}
			q.From = w.l(p.From)
			q.To = w.l(p.To)
		}
		w.sb.WriteByte(' ')
		r[i] = q
		if w.piece != nil {
			w.piece(q)
		}
	}
	w.sb.WriteByte('>')
	return r
}

func (w *walker) v(v Val) Val {
	switch v := v.(type) {
	case nil:
		w.sb.WriteByte('_')
		return nil
	case VNum:
		w.sb.WriteByte('n')
		return VNum{w.l(v.L)}
	case VBool:
		b := v.B
		if b.Neg {
			w.sb.WriteByte('!')
		}
		w.sb.WriteByte(b.Kind)
		switch b.Kind {
		case 'c':
			fmt.Fprint(&w.sb, b.C)
		case 'g', 'e':
			b.L = w.l(b.L)
		case 'f':
			b.F = w.fact(b.F)
		}
		return VBool{b}
	case VNil:
		w.sb.WriteString("nil")
		return v
	case VTop:
		w.sb.WriteString("top")
		return v
	case VPtr:
		if w.obj != nil {
			if nv, ok := w.obj(v.Obj); ok {
				if p, ok := nv.(VPtr); ok && len(v.Path) > 0 {
					return VPtr{p.Obj, append(append([]PE{}, p.Path...), v.Path...)}
				}
				return nv
			}
		}
		w.sb.WriteByte('p')
		w.o(v.Obj)
		return VPtr{w.rn(v.Obj), w.path(v.Path)}
	case VSlice:
		w.sb.WriteByte('s')
		w.o(v.Obj)
		p := w.path(v.Path)
		return VSlice{w.rn(v.Obj), p, w.l(v.Off), w.l(v.Len), w.l(v.Cap)}
	case VStruct:
		w.sb.WriteByte('{')
		f := w.vals(v.F)
		w.sb.WriteByte('}')
		return VStruct{f}
	case VTuple:
		return VTuple{w.vals(v.F)}
	case VArr:
		w.sb.WriteByte('a')
		c := w.seq(v.C)
		return VArr{c, w.l(v.N)}
	case VFunc:
		fmt.Fprintf(&w.sb, "f%s%s", v.Fn, tmKey(v.TM))
		return VFunc{v.Fn, w.vals(v.Bind), v.TM}
	case VIface:
		fmt.Fprintf(&w.sb, "i%s:", tstr(v.T))
		return VIface{v.T, w.v(v.V)}
	case VTerm:
		w.sb.WriteString(v.Fn)
		if v.Uniq > 0 {
			if w.raw || v.Uniq < w.uniqFl {
				fmt.Fprintf(&w.sb, "@%d", v.Uniq)
			} else {
				if w.uniqNum == nil {
					w.uniqNum = map[int]int{}
				}
				n, ok := w.uniqNum[v.Uniq]
				if !ok {
					n = len(w.uniqNum)
					w.uniqNum[v.Uniq] = n
				}
				fmt.Fprintf(&w.sb, "@@%d", n)
			}
			if n, ok := w.uren[v.Uniq]; ok {
				v.Uniq = n
			}
		}
		v.Args = w.vals(v.Args)
		return v
	case VElem:
		fmt.Fprintf(&w.sb, "e%d:", v.B.ID)
		return VElem{v.B, w.l(v.Idx)}
	}
	panic(fmt.Sprintf("walk: %T", v))
}

func (w *walker) objBody(o *Obj) *Obj {
	n := *o
	fmt.Fprintf(&w.sb, "k%d", o.Kind)
	if o.Kind == ORun && w.x != nil && !w.raw {
		w.sb.WriteByte(' ')
	}
	switch o.Kind {
	case OMem:
		n.V = w.v(o.V)
	case ORun:
		n.C = w.seq(o.C)
		n.Next = w.v(o.Next)
	case OMap:
		m := *o.M
		m.Upd = make([]MapUpd, len(o.M.Upd))
		for i, u := range o.M.Upd {
			fmt.Fprint(&w.sb, u.Del)
			m.Upd[i] = MapUpd{w.v(u.K), w.v(u.V), u.Del}
		}
		m.Len = w.l(o.M.Len)
		m.Gone = w.l(o.M.gone())
		n.M = &m
	case OChan:
		n.V = w.v(o.V)
	}
	return &n
}

// state rebuilds a state reachable from its roots; unreachable objects go.
func (w *walker) state(s *State) *State {
	n := &State{objs: map[int]*Obj{}, cons: s.cons, facts: s.facts, ghost: map[string]Val{}, panics: s.panics, marks: s.marks}
	for _, f := range s.frames {
		g := *f
		fmt.Fprintf(&w.sb, "\nF%s", f.fn)
		g.env = make([]Val, len(f.env))
		for i, v := range f.env {
			if v != nil {
				fmt.Fprintf(&w.sb, " %d=", i)
				g.env[i] = w.v(v)
			}
		}
		g.bind = w.vals(f.bind)
		g.defers = nil
		for _, d := range f.defers {
			w.sb.WriteString(" D")
			d.fn = w.v(d.fn)
			d.args = w.vals(d.args)
			g.defers = append(g.defers, d)
		}
		n.frames = append(n.frames, &g)
	}
	w.sb.WriteString("\nT")
	n.trace = w.seq(s.trace)
	w.sb.WriteString("\nL")
	for _, l := range s.locks {
		fmt.Fprintf(&w.sb, " %d", l.Mode)
		n.locks = append(n.locks, lockEnt{w.v(l.Ptr), l.Mode})
	}
	w.sb.WriteString("\nOP")
	for _, o := range s.ops {
		p := w.v(o.Ptr)
		w.sb.WriteString(o.Path + "=")
		n.ops = append(n.ops, opStore{p, o.Path, w.v(o.V)})
	}
	keys := make([]string, 0, len(s.ghost))
	for k := range s.ghost {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		w.sb.WriteString("\nG" + k + "=")
		n.ghost[k] = w.v(s.ghost[k])
	}
	for _, id := range w.x.dirtyGlobals(s) {
		w.o(id)
	}
	for i := 0; i < len(w.objList); i++ {
		id := w.objList[i]
		o := s.objs[id]
		if o == nil {
			continue
		}
		w.sb.WriteString("\nO")
		w.o(id)
		n.objs[id] = w.objBody(o)
	}
	for _, p := range s.pooled {
		if n.objs[p] != nil {
			n.pooled = append(n.pooled, p)
		}
	}
	return n
}

// key is the raw structural key of a value.
func (x *Exec) key(v Val) string {
	switch v := v.(type) {
	case VTerm:
		if len(v.Args) == 0 {
			if v.Uniq > 0 {
				return fmt.Sprintf("%s@%d", v.Fn, v.Uniq)
			}
			return v.Fn
		}
	}
	w := walker{raw: true, x: x}
	w.v(v)
	return w.sb.String()
}

func (x *Exec) factKey(f Fact) string {
	w := walker{raw: true, x: x}
	w.fact(f)
	return w.sb.String()
}

func bconst(b bool) VBool { return VBool{BX{Kind: 'c', C: b}} }

func (b BX) not() BX {
	if b.Kind == 'c' {
		return BX{Kind: 'c', C: !b.C}
	}
	b.Neg = !b.Neg
	return b
}

func bigOf(n int64) *big.Int { return big.NewInt(n) }

// dirtyGlobals are the package variables that may differ from their initial
// value, or through which other memory is reached.
func (x *Exec) dirtyGlobals(s *State) []int {
	if x == nil {
		return nil
	}
	var r []int
	for id := range x.globID {
		o := s.objs[id]
		if o == nil {
			continue
		}
		if o == x.globInit[id] {
			ptr := false
			scanVal(o.V, func(v Val) {
				switch v.(type) {
				case VPtr, VSlice:
					ptr = true
				}
			})
			if !ptr {
				continue
			}
		}
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

// tmKey lists the instantiation of a function value.
func tmKey(tm TM) string {
	if len(tm) == 0 {
		return ""
	}
	var r []string
	for p, t := range tm {
		r = append(r, fmt.Sprintf("%s#%d=%s", p.Obj().Name(), p.Obj().Pos(), tstr(t)))
	}
	sort.Strings(r)
	return "[" + strings.Join(r, ",") + "]"
}
