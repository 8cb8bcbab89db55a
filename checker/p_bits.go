package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// The bit set (C30).
//
// Words are abstracted to one bit of arbitrary position k, the lowest bit, and
// how the word's bits relate to the bits named by the argument list. Every
// operator is interpreted on that abstraction; k stands for every position
// below the width of the type.

type bitsV struct {
	k, b0    byte // '0', '1' or '?'
	disj     bool // no named bit is set
	sub      bool // only named bits are set
	onlyK    bool // only bit k may be set
	only0    bool // only the lowest bit may be set
	zero, nz bool
}

func (b bitsV) val(t types.Type) Val {
	if b.k == '1' || b.b0 == '1' {
		b.nz = true
	}
	if b.disj && b.sub || b.only0 && b.b0 == '0' || b.onlyK && b.k == '0' {
		b.zero = true
	}
	if b.zero {
		b = bitsV{'0', '0', true, true, true, true, true, false}
	}
	s := "bits " + string(b.k) + string(b.b0)
	for i, f := range []bool{b.disj, b.sub, b.onlyK, b.only0, b.zero, b.nz} {
		if f {
			s += " " + string("dsk0zn"[i])
		}
	}
	return VTerm{Fn: s, T: t, NN: true}
}

func isBits(v Val) bool {
	t, ok := v.(VTerm)
	return ok && strings.HasPrefix(t.Fn, "bits ")
}

func bitsOf(v Val, t types.Type) (bitsV, bool) {
	if n, ok := v.(VNum); ok && n.L.isConst() && isInt(t) {
		w, _ := intBits(basicOf(t))
		c := new(big.Int).Mod(n.L.K, pow2(w))
		b := bitsV{k: '?', b0: '0'}
		if c.Bit(0) == 1 {
			b.b0 = '1'
		}
		switch {
		case c.Sign() == 0:
			return bitsV{'0', '0', true, true, true, true, true, false}, true
		case c.Cmp(new(big.Int).Sub(pow2(w), big1)) == 0:
			b.k = '1'
		case c.Cmp(big1) == 0:
			b.only0 = true
		}
		b.nz = true
		return b, true
	}
	if !isBits(v) {
		return bitsV{}, false
	}
	s := v.(VTerm).Fn
	b := bitsV{k: s[5], b0: s[6]}
	for _, f := range s[7:] {
		switch f {
		case 'd':
			b.disj = true
		case 's':
			b.sub = true
		case 'k':
			b.onlyK = true
		case '0':
			b.only0 = true
		case 'z':
			b.zero = true
		case 'n':
			b.nz = true
		}
	}
	return b, true
}

func bit3(op token.Token, a, b byte) byte {
	switch op {
	case token.AND:
		if a == '0' || b == '0' {
			return '0'
		}
		if a == '1' && b == '1' {
			return '1'
		}
	case token.OR:
		if a == '1' || b == '1' {
			return '1'
		}
		if a == '0' && b == '0' {
			return '0'
		}
	case token.XOR:
		if a != '?' && b != '?' {
			if a == b {
				return '0'
			}
			return '1'
		}
	}
	return '?'
}

func not3(a byte) byte {
	switch a {
	case '0':
		return '1'
	case '1':
		return '0'
	}
	return '?'
}

// bitsHooks interprets words. names decides whether a list element is the
// number of bit k; width is that of the bit set's type.
func (x *Exec) bitsHooks(list *Base, width uint, names func(st *State, e VElem) bool) {
	named := func(v Val) (VElem, bool) {
		n, ok := v.(VNum)
		if !ok {
			return VElem{}, false
		}
		e, ok := x.unTag(n).(VElem)
		return e, ok && e.B == list
	}
	word := func(t types.Type) bool {
		if !isInt(t) {
			return false
		}
		w, _ := intBits(basicOf(t))
		return w >= width
	}
	x.H.Bin = func(st *State, op token.Token, a, b Val, t types.Type) (Val, bool) {
		if op == token.SHL || op == token.SHR {
			e, ok := named(b)
			if !ok {
				if isBits(a) {
					x.fail("shift of a word by %s", x.show(b))
				}
				return nil, false
			}
			if n, ok := a.(VNum); ok && op == token.SHL && n.L.isConst() && n.L.K.Cmp(big1) == 0 {
				if !word(t) {
					x.fail("shift in the narrow type %s", tstr(t))
				}
				r := bitsV{k: '0', b0: '?', sub: true, nz: true}
				if names(st, e) {
					r.k, r.onlyK = '1', true
				}
				return r.val(t), true
			}
			w, ok := bitsOf(a, t)
			if !ok {
				x.fail("shift of %s", x.show(a))
			}
			r := bitsV{k: '?', b0: '?'}
			if op == token.SHR {
				if w.disj {
					r.b0 = '0'
				}
				if names(st, e) {
					r.b0 = w.k
				}
			}
			return r.val(t), true
		}
		if !isBits(a) && !isBits(b) {
			return nil, false
		}
		// comparisons with nothing and everything
		switch op {
		case token.GTR, token.LEQ:
			a, b = b, a
			op = map[token.Token]token.Token{token.GTR: token.LSS, token.LEQ: token.GEQ}[op]
		}
		if op == token.LSS || op == token.GEQ {
			var end Val
			neq := op == token.LSS
			if n, ok := a.(VNum); ok && n.L.isZero() { // 0 < b
				end, a = n, b
			} else if n, ok := b.(VNum); ok && n.L.isConst() && n.L.K.Cmp(big1) == 0 { // a < 1
				end, neq = VNum{K(0)}, !neq
			} else if _, hi := intRange(t); ok && n.L.isConst() && n.L.K.Cmp(hi) == 0 { // a < full
				end = n
			} else if n, ok := a.(VNum); ok && n.L.isConst() && n.L.K.Cmp(new(big.Int).Sub(hi, big1)) == 0 { // full-1 < b
				end, a, neq = VNum{KB(hi)}, b, !neq
			} else {
				x.fail("%s on words", op)
			}
			b, op = end, token.EQL
			if neq {
				op = token.NEQ
			}
		}
		p, ok1 := bitsOf(a, t)
		q, ok2 := bitsOf(b, t)
		if !ok1 || !ok2 {
			x.fail("%s on words %s and %s", op, x.show(a), x.show(b))
		}
		switch op {
		case token.AND_NOT:
			r := bitsV{k: bit3(token.AND, p.k, not3(q.k)), b0: bit3(token.AND, p.b0, not3(q.b0)),
				disj: p.disj, sub: p.sub, onlyK: p.onlyK, only0: p.only0}
			return r.val(t), true
		case token.AND:
			r := bitsV{k: bit3(op, p.k, q.k), b0: bit3(op, p.b0, q.b0),
				disj: p.disj || q.disj, sub: p.sub || q.sub, onlyK: p.onlyK || q.onlyK, only0: p.only0 || q.only0}
			return r.val(t), true
		case token.OR, token.XOR:
			r := bitsV{k: bit3(op, p.k, q.k), b0: bit3(op, p.b0, q.b0),
				disj: p.disj && q.disj, sub: p.sub && q.sub, onlyK: p.onlyK && q.onlyK, only0: p.only0 && q.only0}
			r.nz = op == token.OR && (p.nz || q.nz)
			return r.val(t), true
		case token.EQL, token.NEQ:
			diff := func(a, b byte) bool { return a != '?' && b != '?' && a != b }
			same := func(a, b byte) bool { return a != '?' && a == b }
			var r BX
			switch {
			case diff(p.k, q.k) || diff(p.b0, q.b0) || p.zero && q.nz || p.nz && q.zero:
				r = BX{Kind: 'c', C: false}
			case p.zero && q.zero || p.only0 && q.only0 && same(p.b0, q.b0) || p.onlyK && q.onlyK && same(p.k, q.k):
				r = BX{Kind: 'c', C: true}
			default:
				r = BX{Kind: 'f', F: Fact{"words equal", []Val{x.tok("cmp", types.Typ[types.Int])}}}
			}
			if op == token.NEQ {
				r = r.not()
			}
			return VBool{r}, true
		}
		x.fail("%s on words", op)
		return nil, false
	}
	x.H.Un = func(st *State, op token.Token, v Val, t types.Type) (Val, bool) {
		if !isBits(v) {
			return nil, false
		}
		if op != token.XOR {
			x.fail("%s of a word", op)
		}
		p, _ := bitsOf(v, t)
		r := bitsV{k: not3(p.k), b0: not3(p.b0)}
		return r.val(t), true
	}
	x.H.Conv = func(st *State, v Val, from, to types.Type) (Val, bool) {
		if !isBits(v) {
			return nil, false
		}
		if !word(to) {
			x.fail("conversion of a word to %s", tstr(to))
		}
		b, _ := bitsOf(v, from)
		_, s1 := intBits(basicOf(from))
		_, s2 := intBits(basicOf(to))
		if s1 || s2 {
			x.fail("conversion of a word to %s", tstr(to))
		}
		w1, _ := intBits(basicOf(from))
		w2, _ := intBits(basicOf(to))
		if w2 < w1 {
			b.nz = false
		}
		return b.val(to), true
	}
}

func runBits(r *Run) {
	t := r.P.Type(bitsetPkg, "BitSet")
	for _, k := range []types.BasicKind{types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uint, types.Uintptr} {
		wt := types.Typ[k]
		w, _ := intBits(wt)
		full := KB(new(big.Int).Sub(pow2(w), big1))
		f := fieldBy(t, 0, func(types.Type) bool { return true })
		// call runs an operation on a word; names says which elements of the
		// list are the number of bit k.
		call := func(c *Case, name string, data Val, list bool, names func(st *State, e VElem) bool, setup func(st *State, b *Base, n Lin), check func(st *State, data Val, q Ret) string) {
			x := c.X
			it, err := types.Instantiate(nil, t, []types.Type{wt}, false)
			if err != nil {
				x.fail("%v", err)
			}
			if structOf(it).NumFields() != 1 {
				x.fail("a bit set holds more than its word")
			}
			st := NewState()
			st.ghost["seen"] = VTerm{}
			x.rng = func(v Val, t types.Type) (lo, hi *big.Int, ok bool) {
				if e, ok := v.(VElem); ok && e.B.Name == "I" {
					return big0, big.NewInt(int64(w) - 1), true
				}
				return nil, nil, false
			}
			b := x.base("I", types.Typ[types.Int])
			n := x.lenSym("n")
			var args []Val
			s, ok := x.zero(it).(VStruct)
			if !ok {
				x.fail("a bit set is no struct")
			}
			s.F = append([]Val(nil), s.F...)
			s.F[f] = data
			p := x.newMem(st, s, it)
			args = append(args, p)
			var lv VSlice
			if list {
				lv = x.sliceOf(st, b, n, types.Typ[types.Int])
				args = append(args, lv)
				if setup != nil {
					setup(st, b, n)
				}
			}
			x.bitsHooks(b, w, func(st *State, e VElem) bool { return names(st, e) })
			fn := r.P.Fn(bitsetPkg, "BitSet."+name)
			was := st.clone()
			c.Each(c.Call(st, fn, tmFor(fn, []types.Type{wt}), args...), noPan(func(st *State, q Ret) string {
				if list {
					if m := x.seqIs(st, "the caller's list", st.objs[lv.Obj].V.(VArr).C, was.objs[lv.Obj].V.(VArr).C); m != "" {
						return m
					}
				}
				if len(st.trace) > 0 {
					return "does more than work on its word"
				}
				return check(st, x.getF(st, p, f), q)
			}))
		}
		word := func(bit byte) Val { return bitsV{k: bit, b0: '?'}.val(wt) }
		bitIs := func(want byte) func(st *State, d Val, q Ret) string {
			return func(st *State, d Val, q Ret) string {
				b, ok := bitsOf(d, wt)
				if !ok {
					return "the word is not understood"
				}
				if b.k == '?' {
					return "the bit may be " + string(not3(want)) + ", expected " + string(want)
				}
				if b.k != want {
					return "the bit is " + string(b.k) + ", expected " + string(want)
				}
				return ""
			}
		}
		k0 := func(c *Case) Lin { return S(c.X.ST.Intern("bits k0", "k0", big0, maxLen)) }
		k1 := func(c *Case) Lin { return S(c.X.ST.Intern("bits k1", "k1", big0, maxLen)) }
		mark := func(c *Case, st *State) {
			// keeps what happens after each mention apart
			if n := st.ghost["seen"].(VTerm).Fn; len(n) < 3 {
				st.ghost["seen"] = VTerm{Fn: n + "s"}
			}
		}
		none := func(*State, VElem) bool { return false }
		// at names exactly the elements k0 (and k1); some names at least k0
		at := func(c *Case, two bool) func(*State, VElem) bool {
			return func(st *State, e VElem) bool {
				if c.X.decideEQ(st, e.Idx.Sub(k0(c))) || two && c.X.decideEQ(st, e.Idx.Sub(k1(c))) {
					mark(c, st)
					return true
				}
				return false
			}
		}
		some := func(c *Case) func(*State, VElem) bool {
			return func(st *State, e VElem) bool {
				return c.X.decideEQ(st, e.Idx.Sub(k0(c))) || c.X.decideFact(st, Fact{"the number of bit k", []Val{e}})
			}
		}
		with0 := func(c *Case) func(*State, *Base, Lin) {
			return func(st *State, b *Base, n Lin) {
				st.cons = append(st.cons, GE(k0(c), K(0)), LT(k0(c), n))
			}
		}
		with2 := func(c *Case) func(*State, *Base, Lin) {
			return func(st *State, b *Base, n Lin) {
				st.cons = append(st.cons, GE(k0(c), K(0)), LT(k0(c), k1(c)), LT(k1(c), n))
			}
		}
		pre := bitsetPkg + " " + wt.Name() + ": "
		for _, bit := range []byte{'0', '1'} {
			for _, op := range []string{"Set", "Clear", "Toggle"} {
				r.Obl(pre+op+" keeps a bit not named, from "+string(bit), func(c *Case) {
					call(c, op, word(bit), true, none, nil, bitIs(bit))
				})
			}
			r.Obl(pre+"Set sets a bit named, from "+string(bit), func(c *Case) {
				call(c, "Set", word(bit), true, some(c), with0(c), bitIs('1'))
			})
			r.Obl(pre+"Clear clears a bit named, from "+string(bit), func(c *Case) {
				call(c, "Clear", word(bit), true, some(c), with0(c), bitIs('0'))
			})
			r.Obl(pre+"Toggle flips a bit named, from "+string(bit), func(c *Case) {
				call(c, "Toggle", word(bit), true, at(c, false), with0(c), bitIs(not3(bit)))
			})
			r.Obl(pre+"Toggle flips back a bit named twice, from "+string(bit), func(c *Case) {
				call(c, "Toggle", word(bit), true, at(c, true), with2(c), bitIs(bit))
			})
			r.Obl(pre+"ClearAll, from "+string(bit), func(c *Case) { call(c, "ClearAll", word(bit), false, none, nil, bitIs('0')) })
			r.Obl(pre+"SetAll, from "+string(bit), func(c *Case) { call(c, "SetAll", word(bit), false, none, nil, bitIs('1')) })
			r.Obl(pre+"ToggleAll, from "+string(bit), func(c *Case) { call(c, "ToggleAll", word(bit), false, none, nil, bitIs(not3(bit))) })
		}
		res := func(c *Case, want bool) func(*State, Val, Ret) string {
			return func(st *State, d Val, q Ret) string { return c.X.boolIs(st, "result", q.vals[0], want) }
		}
		keep := func(c *Case, old Val, f func(*State, Val, Ret) string) func(*State, Val, Ret) string {
			return func(st *State, d Val, q Ret) string {
				return first(c.X.valIs(st, "the word", d, old), f(st, d, q))
			}
		}
		r.Obl(pre+"Test, one named bit is set", func(c *Case) {
			call(c, "Test", word('1'), true, some(c), with0(c), keep(c, word('1'), res(c, true)))
		})
		r.Obl(pre+"Test, no named bit is set", func(c *Case) {
			d := bitsV{k: '?', b0: '?', disj: true}.val(wt)
			call(c, "Test", d, true, none, nil, keep(c, d, res(c, false)))
		})
		r.Obl(pre+"IsEmpty, empty", func(c *Case) {
			call(c, "IsEmpty", VNum{K(0)}, false, none, nil, keep(c, VNum{K(0)}, res(c, true)))
		})
		r.Obl(pre+"IsEmpty, a bit is set", func(c *Case) {
			call(c, "IsEmpty", word('1'), false, none, nil, keep(c, word('1'), res(c, false)))
		})
		r.Obl(pre+"IsFull, full", func(c *Case) {
			call(c, "IsFull", VNum{full}, false, none, nil, keep(c, VNum{full}, res(c, true)))
		})
		r.Obl(pre+"IsFull, a bit is clear", func(c *Case) {
			call(c, "IsFull", word('0'), false, none, nil, keep(c, word('0'), res(c, false)))
		})
	}
}

func init() {
	register(&Prop{ID: "C30", Title: "bit set", Pkgs: []string{bitsetPkg}, Min: 120,
		Rule: "per unsigned type, words abstracted to one bit of arbitrary position and to how they relate to the named bits: a named bit is set, cleared or flipped (back, if named twice), any other is kept, for lists of every length with at least, or exactly, one or two elements naming the bit; tests agree with a bit of arbitrary position",
		Run:  runBits})
}
