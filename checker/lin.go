package main

// Numeric abstract domain: convex polyhedra over integer symbols, kept in
// constraint form, with Fourier-Motzkin projection for entailment and Karr's
// affine hull for joins of equalities.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sym int32

type term struct {
	S Sym
	C *big.Int
}

// Lin is an immutable linear expression K + sum C*S, terms sorted by symbol.
type Lin struct {
	K *big.Int
	T []term
}

var (
	big0  = big.NewInt(0)
	big1  = big.NewInt(1)
	bigM1 = big.NewInt(-1)
)

func K(n int64) Lin         { return Lin{K: big.NewInt(n)} }
func KB(n *big.Int) Lin     { return Lin{K: n} }
func S(s Sym) Lin           { return Lin{K: big0, T: []term{{s, big1}}} }
func (a Lin) isConst() bool { return len(a.T) == 0 }
func (a Lin) isZero() bool  { return len(a.T) == 0 && a.K.Sign() == 0 }
func (a Lin) isSym() (Sym, bool) {
	if len(a.T) == 1 && a.K.Sign() == 0 && a.T[0].C.Cmp(big1) == 0 {
		return a.T[0].S, true
	}
	return 0, false
}
func (a Lin) constInt() (int64, bool) {
	if len(a.T) == 0 && a.K.IsInt64() {
		return a.K.Int64(), true
	}
	return 0, false
}

func (a Lin) Add(b Lin) Lin {
	if len(b.T) == 0 && b.K.Sign() == 0 {
		return a
	}
	if len(a.T) == 0 && a.K.Sign() == 0 {
		return b
	}
	r := Lin{K: new(big.Int).Add(a.K, b.K), T: make([]term, 0, len(a.T)+len(b.T))}
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || i < len(a.T) && a.T[i].S < b.T[j].S:
			r.T = append(r.T, a.T[i])
			i++
		case i >= len(a.T) || b.T[j].S < a.T[i].S:
			r.T = append(r.T, b.T[j])
			j++
		default:
			c := new(big.Int).Add(a.T[i].C, b.T[j].C)
			if c.Sign() != 0 {
				r.T = append(r.T, term{a.T[i].S, c})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) Mul(k *big.Int) Lin {
	if k.Sign() == 0 {
		return Lin{K: big0}
	}
	if k.Cmp(big1) == 0 {
		return a
	}
	r := Lin{K: new(big.Int).Mul(a.K, k), T: make([]term, len(a.T))}
	for i, t := range a.T {
		r.T[i] = term{t.S, new(big.Int).Mul(t.C, k)}
	}
	return r
}
func (a Lin) MulI(k int64) Lin { return a.Mul(big.NewInt(k)) }
func (a Lin) Neg() Lin         { return a.Mul(bigM1) }
func (a Lin) Sub(b Lin) Lin    { return a.Add(b.Neg()) }
func (a Lin) AddI(k int64) Lin { return a.Add(K(k)) }

func (a Lin) coef(s Sym) *big.Int {
	for _, t := range a.T {
		if t.S == s {
			return t.C
		}
	}
	return big0
}

func (a Lin) Subst(s Sym, by Lin) Lin {
	c := a.coef(s)
	if c.Sign() == 0 {
		return a
	}
	r := Lin{K: a.K, T: make([]term, 0, len(a.T))}
	for _, t := range a.T {
		if t.S != s {
			r.T = append(r.T, t)
		}
	}
	return r.Add(by.Mul(c))
}

func (a Lin) SubstMap(m map[Sym]Lin) Lin {
	hit := false
	for _, t := range a.T {
		if _, ok := m[t.S]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return a
	}
	r := Lin{K: a.K}
	for _, t := range a.T {
		if by, ok := m[t.S]; ok {
			r = r.Add(by.Mul(t.C))
		} else {
			r = r.Add(Lin{K: big0, T: []term{t}})
		}
	}
	return r
}

func (a Lin) Eq(b Lin) bool {
	if len(a.T) != len(b.T) || a.K.Cmp(b.K) != 0 {
		return false
	}
	for i := range a.T {
		if a.T[i].S != b.T[i].S || a.T[i].C.Cmp(b.T[i].C) != 0 {
			return false
		}
	}
	return true
}

func (a Lin) Key() string {
	var b strings.Builder
	b.WriteString(a.K.String())
	for _, t := range a.T {
		fmt.Fprintf(&b, "+%s*s%d", t.C, t.S)
	}
	return b.String()
}

// Con is the constraint L >= 0, or L == 0 if Eq.
type Con struct {
	L  Lin
	Eq bool
}

func GE(a, b Lin) Con { return Con{L: a.Sub(b)} }
func LE(a, b Lin) Con { return Con{L: b.Sub(a)} }
func LT(a, b Lin) Con { return Con{L: b.Sub(a).AddI(-1)} }
func EQ(a, b Lin) Con { return Con{L: a.Sub(b), Eq: true} }

// norm divides by the gcd of the coefficients (tightening inequalities over
// the integers). ok=false: the constraint is plainly unsatisfiable.
func (c Con) norm() (Con, bool) {
	if len(c.L.T) == 0 {
		if c.Eq {
			return c, c.L.K.Sign() == 0
		}
		return c, c.L.K.Sign() >= 0
	}
	g := new(big.Int)
	for _, t := range c.L.T {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.C))
	}
	if g.Cmp(big1) == 0 {
		return c, true
	}
	n := Lin{T: make([]term, len(c.L.T))}
	for i, t := range c.L.T {
		n.T[i] = term{t.S, new(big.Int).Quo(t.C, g)}
	}
	q, m := new(big.Int).DivMod(c.L.K, g, new(big.Int))
	if c.Eq && m.Sign() != 0 {
		return c, false
	}
	n.K = q // floor division
	return Con{n, c.Eq}, true
}

// Syms: global symbol table.
type symInfo struct {
	name   string
	lo, hi *big.Int
	tag    interface{}
	weak   bool
	defs   []Con // hold wherever the symbol is used
}

type divTag struct {
	a Lin
	d *big.Int
}

type SymTab struct {
	info []symInfo
	memo map[string]Sym
}

func NewSymTab() *SymTab {
	t := &SymTab{memo: map[string]Sym{}}
	t.Fresh("idx", nil, nil) // symbol 0: index placeholder in templates
	return t
}

func (t *SymTab) Fresh(name string, lo, hi *big.Int) Sym {
	t.info = append(t.info, symInfo{name: name, lo: lo, hi: hi})
	return Sym(len(t.info) - 1)
}

func (t *SymTab) Intern(key, name string, lo, hi *big.Int) Sym {
	if s, ok := t.memo[key]; ok {
		return s
	}
	s := t.Fresh(name, lo, hi)
	t.memo[key] = s
	return s
}

func (t *SymTab) Str(l Lin) string {
	var b strings.Builder
	for i, x := range l.T {
		c := x.C
		if c.Sign() < 0 {
			b.WriteString("-")
			c = new(big.Int).Neg(c)
		} else if i > 0 {
			b.WriteString("+")
		}
		if c.Cmp(big1) != 0 {
			b.WriteString(c.String() + "*")
		}
		b.WriteString(t.info[x.S].name)
	}
	if len(l.T) == 0 {
		return l.K.String()
	}
	if l.K.Sign() != 0 {
		if l.K.Sign() > 0 {
			b.WriteString("+")
		}
		b.WriteString(l.K.String())
	}
	return b.String()
}

const fmLimit = 3000

// withDefs adds the bounds and definitions of the symbols that occur.
func (t *SymTab) withDefs(cons []Con) []Con {
	seen := map[Sym]bool{}
	out := append([]Con(nil), cons...)
	for i := 0; i < len(out); i++ {
		for _, x := range out[i].L.T {
			if seen[x.S] {
				continue
			}
			seen[x.S] = true
			in := t.info[x.S]
			if in.lo != nil {
				out = append(out, GE(S(x.S), KB(in.lo)))
			}
			if in.hi != nil {
				out = append(out, LE(S(x.S), KB(in.hi)))
			}
			out = append(out, in.defs...)
		}
	}
	return out
}

// divFloor is floor(a/d) for a constant d > 0.
func (t *SymTab) divFloor(a Lin, d *big.Int) Lin {
	if a.isConst() {
		return KB(new(big.Int).Div(a.K, d))
	}
	// multiples of d come out
	out, rest := K(0), K(0)
	for _, m := range a.T {
		q, r := new(big.Int).QuoRem(m.C, d, new(big.Int))
		if r.Sign() == 0 {
			out = out.Add(S(m.S).Mul(q))
		} else {
			rest = rest.Add(S(m.S).Mul(m.C))
		}
	}
	q := new(big.Int).Div(a.K, d)
	out = out.Add(KB(q))
	a = rest.Add(KB(new(big.Int).Sub(a.K, new(big.Int).Mul(q, d))))
	if a.isConst() {
		return out
	}
	if len(a.T) == 1 && a.T[0].C.Cmp(big1) == 0 {
		if dt, ok := t.info[a.T[0].S].tag.(divTag); ok {
			return out.Add(t.divFloor(dt.a.Add(KB(new(big.Int).Mul(a.K, dt.d))), new(big.Int).Mul(dt.d, d)))
		}
	}
	return out.Add(t.divSym(a, d))
}

func (t *SymTab) divSym(a Lin, d *big.Int) Lin {
	key := "div:" + a.Key() + "/" + d.String()
	if s, ok := t.memo[key]; ok {
		return S(s)
	}
	s := t.Intern(key, "("+t.Str(a)+")/"+d.String(), nil, nil)
	r := a.Sub(S(s).Mul(d))
	t.info[s].tag = divTag{a, d}
	t.info[s].defs = []Con{GE(r, K(0)), LT(r, KB(d))}
	return S(s)
}

// unsat reports whether the constraints have no solution (sound: true only
// if there is none over the rationals after integer tightening).
func (t *SymTab) unsat(cons []Con) bool {
	// separate equalities, substitute
	var eqs, ins []Con
	for _, c := range t.withDefs(cons) {
		n, ok := c.norm()
		if !ok {
			return true
		}
		if len(n.L.T) == 0 {
			continue
		}
		if n.Eq {
			eqs = append(eqs, n)
		} else {
			ins = append(ins, n)
		}
	}
	for len(eqs) > 0 {
		e := eqs[0]
		eqs = eqs[1:]
		e, ok := e.norm()
		if !ok {
			return true
		}
		if len(e.L.T) == 0 {
			continue
		}
		// choose a variable with coefficient +-1 if any, else smallest
		best := 0
		for i, x := range e.L.T {
			if x.C.CmpAbs(e.L.T[best].C) < 0 {
				best = i
			}
		}
		s, c := e.L.T[best].S, e.L.T[best].C
		elim := func(o Con) Con {
			oc := o.L.coef(s)
			if oc.Sign() == 0 {
				return o
			}
			// o*|c| - sign(c)*oc*e
			ac := new(big.Int).Abs(c)
			k := new(big.Int).Mul(oc, big.NewInt(int64(-c.Sign())))
			return Con{o.L.Mul(ac).Add(e.L.Mul(k)), o.Eq}
		}
		for i := range eqs {
			eqs[i] = elim(eqs[i])
		}
		for i := range ins {
			ins[i] = elim(ins[i])
		}
	}
	return t.unsatIneq(ins)
}

func dedupe(ins []Con) ([]Con, bool) {
	best := map[string]int{}
	var out []Con
	for _, c := range ins {
		n, ok := c.norm()
		if !ok {
			return nil, false
		}
		if len(n.L.T) == 0 {
			continue
		}
		k := Lin{K: big0, T: n.L.T}.Key()
		if i, ok := best[k]; ok {
			if n.L.K.Cmp(out[i].L.K) < 0 {
				out[i] = n
			}
			continue
		}
		best[k] = len(out)
		out = append(out, n)
	}
	return out, true
}

func (t *SymTab) unsatIneq(ins []Con) bool {
	for {
		var ok bool
		ins, ok = dedupe(ins)
		if !ok {
			return true
		}
		if len(ins) == 0 {
			return false
		}
		type cnt struct{ p, n int }
		occ := map[Sym]*cnt{}
		for _, c := range ins {
			for _, x := range c.L.T {
				o := occ[x.S]
				if o == nil {
					o = &cnt{}
					occ[x.S] = o
				}
				if x.C.Sign() > 0 {
					o.p++
				} else {
					o.n++
				}
			}
		}
		var pick Sym
		bestCost := -1 << 30
		first := true
		for s, o := range occ {
			cost := o.p*o.n - o.p - o.n
			if first || cost < bestCost || cost == bestCost && s < pick {
				pick, bestCost, first = s, cost, false
			}
		}
		ins = elimFM(ins, pick)
		if len(ins) > fmLimit {
			return false
		}
	}
}

func elimFM(ins []Con, s Sym) []Con {
	var pos, neg, rest []Con
	for _, c := range ins {
		switch c.L.coef(s).Sign() {
		case 1:
			pos = append(pos, c)
		case -1:
			neg = append(neg, c)
		default:
			rest = append(rest, c)
		}
	}
	for _, p := range pos {
		for _, n := range neg {
			cp := p.L.coef(s)
			cn := new(big.Int).Neg(n.L.coef(s))
			rest = append(rest, Con{L: p.L.Mul(cn).Add(n.L.Mul(cp))})
		}
	}
	return rest
}

// cone keeps the constraints connected to the query through shared symbols.
func (t *SymTab) cone(cons []Con, q Lin) []Con {
	in := map[Sym]bool{}
	var add func(l Lin)
	add = func(l Lin) {
		for _, x := range l.T {
			if !in[x.S] {
				in[x.S] = true
				for _, d := range t.info[x.S].defs {
					add(d.L)
				}
			}
		}
	}
	add(q)
	used := make([]bool, len(cons))
	var out []Con
	for changed := true; changed; {
		changed = false
		for i, c := range cons {
			if used[i] {
				continue
			}
			hit := len(c.L.T) == 0
			for _, x := range c.L.T {
				if in[x.S] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				add(c.L)
			}
		}
	}
	return out
}

func (t *SymTab) entailsGE(cons []Con, l Lin) bool {
	if l.isConst() {
		return l.K.Sign() >= 0
	}
	// quick interval check on one symbol
	c := t.cone(cons, l)
	c = append(c[:len(c):len(c)], Con{L: l.Neg().AddI(-1)})
	return t.unsat(c)
}

func (t *SymTab) entails(cons []Con, c Con) bool {
	if c.Eq {
		if c.L.isConst() {
			return c.L.K.Sign() == 0
		}
		return t.entailsGE(cons, c.L) && t.entailsGE(cons, c.L.Neg())
	}
	return t.entailsGE(cons, c.L)
}

// project eliminates every symbol not in keep. Equalities and inequalities
// over keep are returned.
func (t *SymTab) project(cons []Con, keep map[Sym]bool) []Con {
	var eqs, ins []Con
	for _, c := range t.withDefs(cons) {
		n, ok := c.norm()
		if !ok {
			return []Con{{L: K(-1)}}
		}
		if len(n.L.T) == 0 {
			continue
		}
		if n.Eq {
			eqs = append(eqs, n)
		} else {
			ins = append(ins, n)
		}
	}
	var kept []Con
	for len(eqs) > 0 {
		// find an equality with an eliminable symbol
		bi, bs, bc := -1, Sym(0), (*big.Int)(nil)
		for i, e := range eqs {
			for _, x := range e.L.T {
				if !keep[x.S] && (bi < 0 || x.C.CmpAbs(bc) < 0) {
					bi, bs, bc = i, x.S, x.C
				}
			}
		}
		if bi < 0 {
			kept = append(kept, eqs...)
			break
		}
		e := eqs[bi]
		eqs = append(append([]Con{}, eqs[:bi]...), eqs[bi+1:]...)
		elim := func(o Con) Con {
			oc := o.L.coef(bs)
			if oc.Sign() == 0 {
				return o
			}
			ac := new(big.Int).Abs(bc)
			k := new(big.Int).Mul(oc, big.NewInt(int64(-bc.Sign())))
			r, _ := Con{o.L.Mul(ac).Add(e.L.Mul(k)), o.Eq}.norm()
			return r
		}
		for i := range eqs {
			eqs[i] = elim(eqs[i])
		}
		for i := range ins {
			ins[i] = elim(ins[i])
		}
	}
	for {
		var ok bool
		ins, ok = dedupe(ins)
		if !ok {
			return []Con{{L: K(-1)}}
		}
		var pick Sym
		best := -1
		occ := map[Sym][2]int{}
		for _, c := range ins {
			for _, x := range c.L.T {
				if keep[x.S] {
					continue
				}
				o := occ[x.S]
				if x.C.Sign() > 0 {
					o[0]++
				} else {
					o[1]++
				}
				occ[x.S] = o
			}
		}
		for s, o := range occ {
			cost := o[0] * o[1]
			if best < 0 || cost < best || cost == best && s < pick {
				best, pick = cost, s
			}
		}
		if best < 0 {
			break
		}
		if best > 400 { // too dense: drop (sound: weaker)
			var r []Con
			for _, c := range ins {
				if c.L.coef(pick).Sign() == 0 {
					r = append(r, c)
				}
			}
			ins = r
			continue
		}
		ins = elimFM(ins, pick)
	}
	return append(kept, ins...)
}

// ---- affine hull (Karr)

type ratVec []*big.Rat

func zeroVec(n int) ratVec {
	v := make(ratVec, n)
	for i := range v {
		v[i] = new(big.Rat)
	}
	return v
}

// solveAffine turns equalities over vars (others must not occur) into a point
// and direction vectors.
func solveAffine(eqs []Con, vars []Sym) (ratVec, []ratVec) {
	n := len(vars)
	ix := map[Sym]int{}
	for i, s := range vars {
		ix[s] = i
	}
	var rows []ratVec // n coefs + constant
	for _, e := range eqs {
		r := zeroVec(n + 1)
		for _, x := range e.L.T {
			r[ix[x.S]].SetInt(x.C)
		}
		r[n].SetInt(e.L.K)
		rows = append(rows, r)
	}
	piv := rref(rows, n)
	isPiv := make([]int, n)
	for i := range isPiv {
		isPiv[i] = -1
	}
	for r, c := range piv {
		isPiv[c] = r
	}
	point := zeroVec(n)
	for c := 0; c < n; c++ {
		if isPiv[c] >= 0 {
			point[c].Neg(rows[isPiv[c]][n])
		}
	}
	var dirs []ratVec
	for c := 0; c < n; c++ {
		if isPiv[c] >= 0 {
			continue
		}
		d := zeroVec(n)
		d[c].SetInt64(1)
		for p := 0; p < n; p++ {
			if isPiv[p] >= 0 {
				d[p].Neg(rows[isPiv[p]][c])
			}
		}
		dirs = append(dirs, d)
	}
	return point, dirs
}

// rref reduces rows over the first n columns and returns pivot column per row.
func rref(rows []ratVec, n int) []int {
	var piv []int
	r := 0
	for c := 0; c < n && r < len(rows); c++ {
		p := -1
		for i := r; i < len(rows); i++ {
			if rows[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		inv := new(big.Rat).Inv(rows[r][c])
		for k := range rows[r] {
			rows[r][k] = new(big.Rat).Mul(rows[r][k], inv)
		}
		for i := range rows {
			if i != r && rows[i][c].Sign() != 0 {
				f := new(big.Rat).Set(rows[i][c])
				for k := range rows[i] {
					rows[i][k] = new(big.Rat).Sub(rows[i][k], new(big.Rat).Mul(f, rows[r][k]))
				}
			}
		}
		piv = append(piv, c)
		r++
	}
	return piv
}

// affineHull returns the equalities over vars holding for both systems.
func affineHull(e1, e2 []Con, vars []Sym) []Con {
	p1, d1 := solveAffine(e1, vars)
	p2, d2 := solveAffine(e2, vars)
	n := len(vars)
	rows := append(append([]ratVec{}, d1...), d2...)
	df := zeroVec(n)
	for i := range df {
		df[i].Sub(p2[i], p1[i])
	}
	rows = append(rows, df)
	m := make([]ratVec, len(rows))
	for i, r := range rows {
		m[i] = append(ratVec{}, r...)
		for k := range m[i] {
			m[i][k] = new(big.Rat).Set(r[k])
		}
	}
	piv := rref(m, n)
	isPiv := make([]int, n)
	for i := range isPiv {
		isPiv[i] = -1
	}
	for r, c := range piv {
		isPiv[c] = r
	}
	var out []Con
	for c := 0; c < n; c++ {
		if isPiv[c] >= 0 {
			continue
		}
		a := zeroVec(n) // nullspace vector
		a[c].SetInt64(1)
		for p := 0; p < n; p++ {
			if isPiv[p] >= 0 {
				a[p].Neg(m[isPiv[p]][c])
			}
		}
		k := new(big.Rat)
		den := big.NewInt(1)
		for i := 0; i < n; i++ {
			k.Sub(k, new(big.Rat).Mul(a[i], p1[i]))
			den = lcm(den, a[i].Denom())
		}
		den = lcm(den, k.Denom())
		l := Lin{K: ratTimes(k, den)}
		ord := make([]int, n)
		for i := range ord {
			ord[i] = i
		}
		sort.Slice(ord, func(x, y int) bool { return vars[ord[x]] < vars[ord[y]] })
		for _, i := range ord {
			if a[i].Sign() != 0 {
				l.T = append(l.T, term{vars[i], ratTimes(a[i], den)})
			}
		}
		c, _ := Con{l, true}.norm()
		out = append(out, c)
	}
	return out
}

func lcm(a, b *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, a, b)
	return new(big.Int).Mul(a, new(big.Int).Quo(b, g))
}

func ratTimes(r *big.Rat, d *big.Int) *big.Int {
	return new(big.Int).Quo(new(big.Int).Mul(r.Num(), d), r.Denom())
}
