package main

import (
	"go/types"
	"math/big"
)

// Times and time zones (C25, C34). A time is an instant, given by its seconds
// and nanoseconds since the Unix epoch, with a location; calendar dates in UTC
// are days since the epoch, of which the first days of the months are opaque.

const (
	timexPkg = "timex"
	diffPkg  = "timex/diffx"
	truncPkg = "timex/truncatex"
)

type clock struct {
	x   *Exec
	c   *Case
	now int
}

func newClock(c *Case) *clock {
	k := &clock{x: c.X, c: c}
	k.x.H.Call = k.call
	return k
}

var utcLoc = VTerm{Fn: "UTC"}

// toInternal is the number of seconds from the zero time to the Unix epoch.
const toInternal = 62135596800

func (k *clock) floor(a Lin, d int64) Lin { return k.x.ST.divFloor(a, big.NewInt(d)) }
func (k *clock) mod(a Lin, d int64) Lin   { return a.Sub(k.floor(a, d).MulI(d)) }

type instant struct {
	sec, nsec Lin
	loc       Val
	t         types.Type
}

func (k *clock) mk(i instant) Val {
	return VTerm{Fn: "instant", Args: []Val{VNum{i.sec}, VNum{i.nsec}, i.loc}, T: i.t}
}

func (k *clock) unix(sec, nsec Lin, loc Val, t types.Type) Val {
	return k.mk(instant{sec.Add(k.floor(nsec, 1000000000)), k.mod(nsec, 1000000000), loc, t})
}

func (k *clock) inst(v Val) (instant, bool) {
	t, ok := v.(VTerm)
	if !ok || t.Fn != "instant" {
		return instant{}, false
	}
	return instant{k.x.num(t.Args[0]), k.x.num(t.Args[1]), t.Args[2], t.T}, true
}

func (k *clock) isUTC(v Val) bool {
	t, ok := v.(VTerm)
	return ok && (t.Fn == "UTC" && len(t.Args) == 0 || t.Fn == "global:time.UTC")
}

// in gives the same moment in another location.
func (k *clock) in(v, loc Val, t types.Type) Val {
	if k.isUTC(loc) {
		loc = utcLoc
	}
	if i, ok := k.inst(v); ok {
		i.loc = loc
		return k.mk(i)
	}
	for {
		u, ok := v.(VTerm)
		if !ok || u.Fn != "in" {
			break
		}
		v = u.Args[0]
	}
	return VTerm{Fn: "in", Args: []Val{v, loc}, T: t}
}

func (k *clock) num(v VTerm) Lin {
	return k.x.num(k.x.termV(v, types.Typ[types.Int]))
}

// year, month of a day; firstDay of a month.
func (k *clock) year(day Lin) Lin  { return k.num(VTerm{Fn: "year", Args: []Val{VNum{day}}}) }
func (k *clock) month(day Lin) Lin { return k.num(VTerm{Fn: "month", Args: []Val{VNum{day}}}) }
func (k *clock) firstDay(y, m Lin) Lin {
	return k.num(VTerm{Fn: "first day", Args: []Val{VNum{y}, VNum{m}}})
}

func (k *clock) date(a []Lin, loc Val, t types.Type) (Val, bool) {
	if !k.isUTC(loc) {
		return nil, false
	}
	s := k.firstDay(a[0], a[1]).Add(a[2]).AddI(-1).MulI(86400)
	s = s.Add(a[3].MulI(3600)).Add(a[4].MulI(60)).Add(a[5])
	return k.unix(s, a[6], utcLoc, t), true
}

func (k *clock) call(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
	x := k.x
	var rt types.Type
	if sig.Results().Len() > 0 {
		rt = sig.Results().At(0).Type()
	}
	num := func(i int) Lin { return x.num(args[i]) }
	n := func(l Lin) ([]Ret, bool) { return ret(st, VNum{l}), true }
	// anything else about a time is a function of it
	other := func() ([]Ret, bool) {
		var out []Val
		for i := 0; i < sig.Results().Len(); i++ {
			out = append(out, x.termV(VTerm{Fn: name + "." + itoa(i), Args: args}, sig.Results().At(i).Type()))
		}
		return ret(st, out...), true
	}
	switch name {
	case "time.Now":
		k.now++
		return ret(st, VTerm{Fn: "now", Args: []Val{VNum{K(int64(k.now))}}, T: rt}), true
	case "time.Unix":
		return ret(st, k.unix(num(0), num(1), VTerm{Fn: "Local"}, rt)), true
	case "time.UnixMilli":
		return ret(st, k.unix(k.floor(num(0), 1000), k.mod(num(0), 1000).MulI(1000000), VTerm{Fn: "Local"}, rt)), true
	case "time.Date":
		var a []Lin
		for i := 0; i < 7; i++ {
			a = append(a, num(i))
		}
		if v, ok := k.date(a, args[7], rt); ok {
			return ret(st, v), true
		}
		return other()
	case "time.Since":
		k.now++
		return ret(st, x.termV(VTerm{Fn: "sub", Args: []Val{VTerm{Fn: "now", Args: []Val{VNum{K(int64(k.now))}}}, args[0]}}, rt)), true
	}
	const tm = "(time.Time)."
	if len(name) <= len(tm) || name[:len(tm)] != tm {
		return nil, false
	}
	i, ok := k.inst(args[0])
	utc := ok && k.isUTC(i.loc)
	var day Lin
	if utc {
		day = k.floor(i.sec, 86400)
	}
	switch m := name[len(tm):]; m {
	case "UTC":
		return ret(st, k.in(args[0], utcLoc, rt)), true
	case "Location":
		if utc {
			l := utcLoc
			l.NN, l.T = true, rt
			return ret(st, l), true
		}
	case "Local":
		return ret(st, k.in(args[0], VTerm{Fn: "Local"}, rt)), true
	case "In":
		return ret(st, k.in(args[0], args[1], rt)), true
	case "Sub":
		if j, ok2 := k.inst(args[1]); ok && ok2 {
			d := i.sec.Sub(j.sec).MulI(1000000000).Add(i.nsec).Sub(j.nsec)
			if x.known(st, GE(d, KB(new(big.Int).Neg(pow2(63))))) && x.known(st, LT(d, KB(pow2(63)))) {
				return n(d)
			}
		}
		return ret(st, x.termV(VTerm{Fn: "sub", Args: args}, rt)), true
	case "Unix":
		if ok {
			return n(i.sec)
		}
	case "Nanosecond":
		if ok {
			return n(i.nsec)
		}
	case "Truncate":
		d, isC := num(1).constInt()
		switch {
		case !ok || !isC:
		case d <= 0:
			return ret(st, args[0]), true
		case d%1000000000 == 0:
			s := d / 1000000000
			i.sec, i.nsec = i.sec.Sub(k.mod(i.sec.AddI(toInternal), s)), K(0)
			return ret(st, k.mk(i)), true
		case 1000000000%d == 0:
			i.nsec = i.nsec.Sub(k.mod(i.nsec, d))
			return ret(st, k.mk(i)), true
		}
	case "Add":
		if ok {
			return ret(st, k.unix(i.sec, i.nsec.Add(num(1)), i.loc, i.t)), true
		}
	case "AddDate":
		if !utc {
			break
		}
		if y, ok := num(1).constInt(); ok && y == 0 {
			if m, ok := num(2).constInt(); ok && m == 0 {
				i.sec = i.sec.Add(num(3).MulI(86400))
				return ret(st, k.mk(i)), true
			}
		}
		y, mo := k.year(day), k.month(day)
		s := k.mod(i.sec, 86400)
		v, _ := k.date([]Lin{y.Add(num(1)), mo.Add(num(2)), day.Sub(k.firstDay(y, mo)).AddI(1).Add(num(3)), K(0), K(0), s, i.nsec}, utcLoc, i.t)
		return ret(st, v), true
	case "Year":
		if utc {
			return n(k.year(day))
		}
	case "Month":
		if utc {
			return n(k.month(day))
		}
	case "Day":
		if utc {
			return n(day.Sub(k.firstDay(k.year(day), k.month(day))).AddI(1))
		}
	case "YearDay":
		if utc {
			return n(day.Sub(k.firstDay(k.year(day), K(1))).AddI(1))
		}
	case "Weekday":
		if utc {
			return n(k.mod(day.AddI(4), 7))
		}
	case "Hour":
		if utc {
			return n(k.floor(k.mod(i.sec, 86400), 3600))
		}
	case "Minute":
		if utc {
			return n(k.floor(k.mod(i.sec, 3600), 60))
		}
	case "Second":
		if utc {
			return n(k.mod(i.sec, 60))
		}
	case "Date":
		if utc {
			y, mo := k.year(day), k.month(day)
			return ret(st, VNum{y}, VNum{mo}, VNum{day.Sub(k.firstDay(y, mo)).AddI(1)}), true
		}
	case "Clock":
		if utc {
			s := k.mod(i.sec, 86400)
			return ret(st, VNum{k.floor(s, 3600)}, VNum{k.floor(k.mod(i.sec, 3600), 60)}, VNum{k.mod(i.sec, 60)}), true
		}
	}
	return other()
}

func runTruncate(r *Run) {
	type unit struct {
		fn   string
		want func(k *clock, sec Lin) Lin
	}
	mult := func(d int64) func(k *clock, sec Lin) Lin {
		return func(k *clock, sec Lin) Lin { return k.floor(sec, d).MulI(d) }
	}
	for _, u := range []unit{
		{"TruncateYear", func(k *clock, sec Lin) Lin {
			return k.firstDay(k.year(k.floor(sec, 86400)), K(1)).MulI(86400)
		}},
		{"TruncateMonth", func(k *clock, sec Lin) Lin {
			d := k.floor(sec, 86400)
			return k.firstDay(k.year(d), k.month(d)).MulI(86400)
		}},
		// 1970-01-05 was a Monday
		{"TruncateWeek", func(k *clock, sec Lin) Lin {
			return k.floor(sec.AddI(-4*86400), 7*86400).MulI(7 * 86400).AddI(4 * 86400)
		}},
		{"TruncateDay", mult(86400)},
		{"TruncateHour", mult(3600)},
		{"TruncateMin", mult(60)},
		{"TruncateSec", mult(1)},
	} {
		u := u
		r.Obl(truncPkg+" "+u.fn, func(c *Case) {
			x := c.X
			x.InitPkg(r.P.pkgs[truncPkg])
			k := newClock(c)
			st := NewState()
			sec := x.num(x.fresh("sec", types.Typ[types.Int64]))
			st.cons = append(st.cons, GE(sec, KB(new(big.Int).Neg(pow2(55)))), LE(sec, KB(pow2(55))))
			c.Each(c.Call(st, r.P.Fn(truncPkg, u.fn), nil, VNum{sec}), noPan(func(st *State, q Ret) string {
				return x.numIs(st, "result", q.vals[0], u.want(k, sec))
			}))
		})
	}
}

func runDiffer(r *Run) {
	isNow := func(x *Exec, v Val) string {
		t, ok := v.(VTerm)
		if ok && t.Fn == "in" {
			if n, ok := t.Args[0].(VTerm); ok && n.Fn == "now" && x.key(t.Args[1]) == x.key(utcLoc) {
				return ""
			}
		}
		return "is " + x.show(v) + ", expected the current time in UTC"
	}
	r.Obl(timexPkg+" Now", func(c *Case) {
		newClock(c)
		c.Each(c.Call(NewState(), r.P.Fn(timexPkg, "Now"), nil), noPan(func(st *State, q Ret) string {
			if m := isNow(c.X, q.vals[0]); m != "" {
				return "the result " + m
			}
			return ""
		}))
	})
	r.Obl(timexPkg+" Custom", func(c *Case) {
		x, k := c.X, newClock(c)
		s, n := x.fresh("sec", types.Typ[types.Int64]), x.fresh("nsec", types.Typ[types.Int64])
		fn := r.P.Fn(timexPkg, "Custom")
		c.Each(c.Call(NewState(), fn, nil, s, n), noPan(func(st *State, q Ret) string {
			return x.valIs(st, "result", q.vals[0], k.unix(x.num(s), x.num(n), utcLoc, fn.Signature.Results().At(0).Type()))
		}))
	})
	// an arbitrary differ
	dT := r.P.Fn(diffPkg, "New").Signature.Results().At(0).Type()
	get := func(c *Case, st *State, p Val, m string) (Val, *State) {
		rs := c.Call(st, r.P.Fn(diffPkg, "Differ."+m), nil, p)
		if len(rs) != 1 || rs[0].pan != nil {
			c.X.fail("%s has %d outcomes", m, len(rs))
		}
		return rs[0].vals[0], rs[0].st
	}
	type snap struct{ start, end, diff Val }
	look := func(c *Case, st *State, p Val) (snap, *State) {
		var s snap
		s.start, st = get(c, st, p, "GetStart")
		s.end, st = get(c, st, p, "GetEnd")
		s.diff, st = get(c, st, p, "GetDiff")
		return s, st
	}
	consistent := func(c *Case, st *State, k *clock, s snap) string {
		sub, _ := k.call(st, "(time.Time).Sub", []Val{s.end, s.start}, r.P.Fn(diffPkg, "Differ.GetDiff").Signature)
		if n, ok := s.diff.(VNum); ok && c.X.key(s.end) == c.X.key(s.start) && c.X.decideEQ(st, n.L) {
			return ""
		}
		if c.X.key(s.diff) != c.X.key(sub[0].vals[0]) {
			return "the difference is " + c.X.show(s.diff) + ", expected the end minus the start"
		}
		return ""
	}
	// a recorded difference may be kept equal to that of the recorded times
	dS := structOf(deref(dT))
	rec := -1
	for i := 0; i < dS.NumFields(); i++ {
		if isNamed(dS.Field(i).Type(), "time.Duration") {
			rec = i
		}
	}
	isTime := func(t types.Type) bool { return isNamed(t, "time.Time") }
	times := func(c *Case, st *State, k *clock, p VPtr) (got, want Val, on bool) {
		if rec < 0 || r.ex.get("recorded difference", []string{"any", "end less start"}) == "any" {
			return
		}
		s, e := fieldBy(deref(dT), 0, isTime, "start", "begin"), fieldBy(deref(dT), 1, isTime, "end", "stop")
		sv, ev := c.X.getF(st, p, s), c.X.getF(st, p, e)
		sub, _ := k.call(st, "(time.Time).Sub", []Val{ev, sv}, r.P.Fn(diffPkg, "Differ.GetDiff").Signature)
		got, want = c.X.getF(st, p, rec), sub[0].vals[0]
		if n, ok := got.(VNum); ok && c.X.key(sv) == c.X.key(ev) && c.X.decideEQ(st, n.L) {
			want = got
		}
		return got, want, true
	}
	recOK := func(c *Case, st *State, k *clock, p VPtr) string {
		if got, want, on := times(c, st, k, p); on && c.X.key(got) != c.X.key(want) {
			return "the kept difference is " + c.X.show(got) + ", expected the end minus the start"
		}
		return ""
	}
	for _, m := range []string{"New", "GetStart", "Start", "End"} {
		m := m
		r.Obl(diffPkg+" "+m, func(c *Case) {
			x, k := c.X, newClock(c)
			st := NewState()
			if m == "New" {
				c.Each(c.Call(st, r.P.Fn(diffPkg, "New"), nil), noPan(func(st *State, q Ret) string {
					p, ok := q.vals[0].(VPtr)
					if !ok || !st.objs[p.Obj].Fresh {
						return "New returns " + x.show(q.vals[0]) + ", expected a differ of its own"
					}
					s, st := look(c, st, p)
					return first(consistent(c, st, k, s), recOK(c, st, k, p))
				}))
				return
			}
			t := deref(dT)
			p := x.newMem(st, x.fresh("differ", t), t)
			if _, want, on := times(c, st, k, p); on {
				x.setF(st, p, rec, want)
			}
			old, st := look(c, st, p)
			if m == "GetStart" {
				if e := consistent(c, st, k, old); e != "" {
					c.bad(st, "%s", e)
				}
				c.Each(c.Call(st, r.P.Fn(diffPkg, "Differ.GetStart"), nil, p), noPan(func(st *State, q Ret) string {
					if again, _ := look(c, st, p); x.key(again.start) != x.key(old.start) || x.key(again.end) != x.key(old.end) || x.key(again.diff) != x.key(old.diff) {
						return "reading a differ changes it"
					}
					return recOK(c, st, k, p)
				}))
				return
			}
			from := k.now
			c.Each(c.Call(st, r.P.Fn(diffPkg, "Differ."+m), nil, p), noPan(func(st *State, q Ret) string {
				if k.now == from {
					return "does not read the current time"
				}
				s, st := look(c, st, p)
				set, kept, was, what := s.start, s.end, old.end, "end"
				if m == "End" {
					set, kept, was, what = s.end, s.start, old.start, "start"
				}
				if e := isNow(x, set); e != "" {
					return "the recorded time " + e
				}
				return first(x.valIs(st, "the recorded "+what, kept, was), consistent(c, st, k, s), recOK(c, st, k, p))
			}))
		})
	}
}

func init() {
	register(&Prop{ID: "C25", Title: "time truncation", Pkgs: []string{truncPkg, timexPkg}, Min: 7,
		Rule: "for every Unix time (magnitude at most 2^55 seconds), each of the seven functions returns exactly the linear term (or first day of the year or month of the UTC day) that its unit prescribes; a date or part of a date taken in any other location is another, opaque, number",
		Run:  runTruncate})
	register(&Prop{ID: "C34", Title: "current time and differences", Pkgs: []string{timexPkg, diffPkg}, Min: 6,
		Rule: "Now yields the system's current time in UTC and Custom exactly the moment given, in UTC; on an arbitrary differ, Start and End replace exactly the time that GetStart or GetEnd returns, by the current time in UTC, and GetDiff is always the end minus the start",
		Run:  runDiffer})
}
