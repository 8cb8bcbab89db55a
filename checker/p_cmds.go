package main

import (
	"go/types"
	"sort"
	"strings"
)

// The maintenance commands (C37): autotidy and autoupdate walk the tree below
// the directory they are started in and run the go tool in each directory.
//
// Typestate of the process: the directory it is in, against every outcome of
// every call that may fail, for every entry that the walk may hand over.

type maint struct {
	c    *Case
	x    *Exec
	want []string // arguments of the go tool
	// the entry visited
	path, name Val
	kind       int
	inVisit    bool
	walks      int
}

const (
	entDir    = iota // a directory
	entFile          // anything else
	entUnread        // a directory again, because it could not be read
	entLost          // an entry that could not be looked at
)

var entNames = []string{"a directory", "a file", "a directory that cannot be read", "an entry that cannot be looked at"}

func strC(s string) VTerm { return VTerm{Fn: "str:\"" + s + "\"", T: types.Typ[types.String]} }

func (m *maint) str(name string, args ...Val) Val {
	return m.x.termV(VTerm{Fn: name, Args: args}, types.Typ[types.String])
}

func (m *maint) err(what string) Val {
	t := m.x.tok("err:"+what, types.Universe.Lookup("error").Type())
	t.NN = true
	return t
}

var startDir = VTerm{Fn: "the start"}

func (m *maint) at(p Val) Val { return VTerm{Fn: "at", Args: []Val{p}} }

// place is where a path leads from where the process is; nil is unknown.
func (m *maint) place(st *State, p Val) Val {
	k := m.x.key(p)
	cwd := st.ghost["cwd"]
	switch {
	case k == m.x.key(strC(".")):
		return cwd
	case k == m.x.key(m.str("workdir")):
		return startDir
	case m.path != nil && (k == m.x.key(m.path) || k == m.x.key(m.str("clean", m.path))):
		if m.x.key(cwd) == m.x.key(startDir) {
			return m.at(m.path)
		}
	case m.path != nil && (k == m.x.key(m.str("join", m.str("workdir"), m.path)) || k == m.x.key(m.str("abs", m.path))):
		return m.at(m.path)
	}
	return VTerm{Fn: "elsewhere", Args: []Val{p}}
}

func (m *maint) count(st *State, k string) int64 {
	if st.ghost[k] == nil {
		return 0
	}
	n, _ := m.x.num(st.ghost[k]).constInt()
	return n
}

func (m *maint) inc(st *State, k string) { st.ghost[k] = VNum{K(m.count(st, k) + 1)} }

func (m *maint) bad(st *State, f string, a ...any) { m.c.bad(st, f+" (at "+m.x.where()+")", a...) }

func (m *maint) call(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
	x := m.x
	// may fail: an outcome with the results and one with an error
	may := func(what string, ok func(s *State) []Val, failed ...Val) ([]Ret, bool) {
		return x.fork(st, func(s *State) []Ret {
			if x.choice(s, "fails:"+what) {
				m.inc(s, "failed")
				return ret(s, append(failed, m.err(what))...)
			}
			return ret(s, append(ok(s), VNil{})...)
		}), true
	}
	none := func(*State) []Val { return nil }
	empty := Val(strC(""))
	switch name {
	case "os.Getwd":
		return may("Getwd", func(s *State) []Val {
			if x.key(s.ghost["cwd"]) == x.key(startDir) {
				return []Val{m.str("workdir")}
			}
			return []Val{m.str("wd", s.ghost["cwd"])}
		}, empty)
	case "os.Chdir":
		to := m.place(st, args[0])
		if x.key(args[0]) == x.key(empty) {
			m.inc(st, "failed")
			return ret(st, m.err("Chdir")), true
		}
		return may("Chdir", func(s *State) []Val { s.ghost["cwd"] = to; return nil })
	case "(*os.File).Chdir", "os.Rename", "os.Remove", "os.RemoveAll", "os.WriteFile", "os.Create", "os.Mkdir", "os.MkdirAll":
		m.bad(st, "calls %s", name)
		return ret(st, m.err(name)), true
	case "path/filepath.Join", "path.Join":
		if sl, ok := x.snapshot(st, args[0]).(VArr); ok {
			var vs []Val
			for _, p := range sl.C {
				if p.Kind != POne {
					return nil, false
				}
				vs = append(vs, p.V)
			}
			return ret(st, m.str("join", vs...)), true
		}
	case "path/filepath.Clean":
		return ret(st, m.str("clean", args[0])), true
	case "path/filepath.Abs":
		if x.key(st.ghost["cwd"]) == x.key(startDir) {
			p := args[0]
			return may("Abs", func(*State) []Val {
				if x.key(p) == x.key(strC(".")) {
					return []Val{m.str("workdir")}
				}
				return []Val{m.str("abs", p)}
			}, empty)
		}
	case "path/filepath.Base":
		if m.path != nil && x.key(args[0]) == x.key(m.path) {
			return ret(st, m.name), true
		}
	case "invoke:Name":
		if m.entry(args[0]) {
			return ret(st, m.name), true
		}
	case "invoke:IsDir":
		if m.entry(args[0]) {
			return ret(st, bconst(m.kind == entDir || m.kind == entUnread)), true
		}
	case "invoke:Type", "invoke:Mode":
		if m.entry(args[0]) {
			return ret(st, x.termV(VTerm{Fn: "mode of entry"}, sig.Results().At(0).Type())), true
		}
	case "(io/fs.FileMode).IsDir", "(io/fs.FileMode).IsRegular":
		if m.inVisit {
			dir := m.kind == entDir || m.kind == entUnread
			if strings.HasSuffix(name, "IsDir") {
				return ret(st, bconst(dir)), true
			} else if dir {
				return ret(st, bconst(false)), true
			}
		}
	case "errors.Is", "os.IsNotExist", "os.IsPermission", "os.IsExist":
		if _, ok := args[0].(VNil); ok {
			return ret(st, bconst(false)), true
		}
		return x.fork(st, func(s *State) []Ret { return ret(s, bconst(x.choice(s, "is"))) }), true
	case "invoke:Error":
		return ret(st, m.str("message", args[0])), true
	case "os/exec.LookPath":
		return may("LookPath", func(*State) []Val { return []Val{m.str("lookpath", args[0])} }, empty)
	case "os/exec.Command", "os/exec.CommandContext":
		if strings.HasSuffix(name, "Context") {
			args = args[1:]
		}
		t := deref(sig.Results().At(0).Type())
		p := x.newMem(st, x.zero(t), t)
		st.ghost["cmd:"+x.key(p)] = VTuple{[]Val{args[0], x.snapshot(st, args[1])}}
		return ret(st, p), true
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
		m.runs(st, args[0])
		if !strings.HasSuffix(name, "Run") {
			out := x.fresh("output", types.NewSlice(byteT))
			return may("Run", func(*State) []Val { return []Val{out} }, out)
		}
		return may("Run", none)
	case "(*os/exec.Cmd).Start":
		m.bad(st, "a command is left running while the walk goes on")
		return ret(st, VNil{}), true
	case "os.Exit":
		m.exit(st)
		return nil, true
	case "path/filepath.WalkDir", "path/filepath.Walk":
		return m.walk(st, name, args, sig), true
	}
	if strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") {
		m.exit(st)
		return nil, true
	}
	return nil, false
}

func (m *maint) exit(st *State) {
	if m.inVisit && m.x.key(st.ghost["cwd"]) == m.x.key(startDir) {
		m.bad(st, "%s ends the program", entNames[m.kind])
	} else if !m.inVisit && m.count(st, "failed") == 0 {
		m.bad(st, "the program ends although nothing has failed")
	}
}

func (m *maint) entry(v Val) bool {
	t, ok := v.(VTerm)
	return ok && t.Fn == "entry"
}

// runs checks a run of a command.
func (m *maint) runs(st *State, cmd Val) {
	x := m.x
	g, ok := st.ghost["cmd:"+x.key(cmd)].(VTuple)
	if !ok {
		x.fail("run of %s", x.show(cmd))
	}
	var got []string
	if k := x.key(g.F[0]); k == x.key(strC("go")) || k == x.key(m.str("lookpath", strC("go"))) {
		got = append(got, "go")
	} else {
		got = append(got, x.show(g.F[0]))
	}
	if a, ok := g.F[1].(VArr); ok {
		for _, p := range a.C {
			t, ok := p.V.(VTerm)
			if p.Kind != POne || !ok {
				x.fail("arguments %s", x.show(a))
			}
			got = append(got, strings.Trim(strings.TrimPrefix(t.Fn, "str:"), "\""))
		}
	}
	if s := strings.Join(got, " "); s != strings.Join(m.want, " ") {
		m.bad(st, "runs %q", s)
	}
	if !m.inVisit {
		m.bad(st, "runs a command outside the visits")
		return
	}
	m.inc(st, "runs")
	t := cmd.(VPtr)
	s := under(deref(m.cmdType(cmd, st))).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != "Dir" {
			continue
		}
		d := x.load(st, x.fieldAddr(st, t, i, types.NewPointer(m.objType(st, t))), s.Field(i).Type())
		where := st.ghost["cwd"]
		if x.key(d) != x.key(strC("")) {
			where = m.place(st, d)
		}
		if x.key(where) != x.key(m.at(m.path)) {
			m.bad(st, "the go tool runs in %s instead of the directory visited", x.show(where))
		}
	}
}

func (m *maint) objType(st *State, p VPtr) types.Type { return st.objs[p.Obj].T }

func (m *maint) cmdType(v Val, st *State) types.Type {
	return types.NewPointer(m.objType(st, v.(VPtr)))
}

// changed lists the memory that visits share and that a visit has changed.
func (m *maint) changed(old, st *State, to map[int]bool) (more bool) {
	for id, o := range old.objs {
		if p := st.objs[id]; p != nil && p != o && m.x.key(p.V) != m.x.key(o.V) && !to[id] {
			to[id], more = true, true
		}
	}
	return more
}

// forget gives the memory that visits change any value.
func (m *maint) forget(st *State, which map[int]bool) {
	var ids []int
	for id := range which {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if st.objs[id] == nil {
			continue
		}
		o := *st.objs[id]
		o.V = m.x.anything("shared", o.T)
		st.objs[id] = &o
	}
}

// walk hands over entries: the first, and one after any number of others, of
// every kind.
func (m *maint) walk(st *State, name string, args []Val, sig *types.Signature) []Ret {
	x := m.x
	m.walks++
	if m.inVisit {
		x.fail("walk during a walk")
	}
	if x.key(args[0]) != x.key(strC(".")) {
		x.fail("walk from %s", x.show(args[0]))
	}
	if x.key(st.ghost["cwd"]) != x.key(startDir) {
		m.bad(st, "the walk does not begin in the directory the program was started in")
		return nil
	}
	if m.count(st, "walked") > 0 {
		m.bad(st, "walks the tree twice")
	}
	m.inc(st, "walked")
	cb := coreOf(sig.Params().At(1).Type()).(*types.Signature)
	var stopped []*State
	nvisit := 0
	shared := map[int]bool{}
	for round := 0; ; round++ {
		if round == 6 {
			x.fail("visits that depend on each other")
		}
		// the first visit, then one after any number of others
		s := st.clone()
		m.forget(s, shared)
		more := false
		for kind := entDir; kind <= entLost; kind++ {
			if round > 0 && kind == entLost && name == "path/filepath.WalkDir" {
				continue // only the first entry is looked at by itself
			}
			nvisit++
			v := s.clone()
			m.kind = kind
			m.path = m.str("path" + itoa(round))
			m.name = m.str("name" + itoa(round))
			v.ghost["runs"], v.ghost["failed"] = VNum{K(0)}, VNum{K(0)}
			var d, e Val = VTerm{Fn: "entry", NN: true, T: cb.Params().At(1).Type()}, VNil{}
			if kind == entLost {
				d = VNil{}
			}
			if kind >= entUnread {
				e = m.err("walk")
			}
			m.inVisit = true
			rs := x.invoke(v, args[1], []Val{m.path, d, e}, cb)
			m.inVisit = false
			for _, q := range rs {
				if !m.visited(q) {
					stopped = append(stopped, q.st)
				} else if m.changed(s, q.st, shared) {
					more = true
				}
			}
		}
		m.path, m.name = nil, nil
		if !more {
			break
		}
	}
	m.forget(st, shared)
	m.c.paths += nvisit
	var out []Ret
	for _, s := range append(stopped, st) {
		for _, e := range []Val{VNil{}, m.err("walk")} {
			t := s.clone()
			t.ghost["failed"] = VNum{K(1)}
			if _, ok := e.(VNil); ok {
				t.ghost["failed"] = VNum{K(0)}
			}
			out = append(out, Ret{st: t, vals: []Val{e}})
		}
	}
	return out
}

// visited checks the outcome of a visit; false means that the walk ends.
func (m *maint) visited(q Ret) bool {
	x, st := m.x, q.st
	what := entNames[m.kind]
	if q.pan != nil {
		m.c.bad(st, "%s: %s", what, panMsg(q.pan))
		return false
	}
	runs := m.count(st, "runs")
	failed := m.count(st, "failed") > 0
	res := ""
	switch k := q.vals[0].(type) {
	case VNil:
		res = "on"
	case VTerm:
		switch {
		case k.Fn == "global:path/filepath.SkipDir" || k.Fn == "global:io/fs.SkipDir":
			res = "skip"
		case k.Fn == "global:path/filepath.SkipAll" || k.Fn == "global:io/fs.SkipAll":
			res = "stop"
		case k.NN:
			res = "error"
		default:
			if x.isNil(st, k) {
				res = "on"
			} else {
				res = "error"
			}
		}
	default:
		res = "error"
	}
	away := x.key(st.ghost["cwd"]) != x.key(startDir)
	if away && (res == "on" || res == "skip") {
		m.c.bad(st, "the walk goes on from %s, not from where it began", x.show(st.ghost["cwd"]))
		return true
	}
	if away {
		if !failed {
			m.c.bad(st, "the walk ends although nothing has failed")
		}
		return false
	}
	if m.kind == entLost {
		if runs > 0 {
			m.c.bad(st, "runs a command for %s", what)
		}
		return res == "on" || res == "skip"
	}
	if res != "on" && res != "skip" {
		m.c.bad(st, "%s ends the walk", what)
		return false
	}
	switch m.kind {
	case entFile:
		if runs > 0 {
			m.c.bad(st, "runs a command for a file")
		}
		if res == "skip" {
			m.c.bad(st, "a file ends the visit of its directory")
		}
	case entUnread:
		if runs > 0 {
			m.c.bad(st, "runs the command again for a directory that cannot be read")
		}
	case entDir:
		eq := func(s string) (is, not bool) {
			if x.knownEq(st, m.name, strC(s)) {
				return true, false
			}
			a, b := m.name, Val(strC(s))
			if x.key(a) > x.key(b) {
				a, b = b, a
			}
			v, ok := x.factOf(st, Fact{"eq", []Val{a, b}})
			return false, ok && !v
		}
		v, nv := eq("vendor")
		g, ng := eq(".git")
		switch {
		case v || g:
			if runs > 0 {
				m.c.bad(st, "runs the command in a vendor or .git directory")
			}
			if res != "skip" {
				m.c.bad(st, "descends into a vendor or .git directory")
			}
		case runs == 0 && !failed || res == "skip" && !failed:
			m.c.bad(st, "leaves out a directory, or what is below it, that is not known to be called vendor or .git")
		case runs > 1:
			m.c.bad(st, "runs the command %d times in one directory", runs)
		case runs == 1 && !(nv && ng):
			m.c.bad(st, "runs the command in a directory that may be called vendor or .git")
		case runs == 1 && res == "skip":
			m.c.bad(st, "leaves out what is below a directory")
		}
	}
	return true
}

func init() {
	register(&Prop{ID: "C37", Title: "maintenance commands", Pkgs: []string{"cmd/autotidy", "cmd/autoupdate"}, Min: 2,
		Rule: "abstract interpretation of both programs with every entry a walk may hand over and a failing variant of every call: typestate of the process's directory, commands run per visit and where, result of every visit",
		Run: func(r *Run) {
			for _, p := range []struct {
				pkg  string
				want string
			}{{"cmd/autotidy", "go mod tidy"}, {"cmd/autoupdate", "go get -u"}} {
				p := p
				r.Obl(p.pkg+" main", func(c *Case) {
					m := &maint{c: c, x: c.X, want: strings.Split(p.want, " ")}
					c.X.atStart = true
					c.X.InitPkg(r.P.pkgs[p.pkg])
					c.X.H.Call = m.call
					st := NewState()
					st.ghost["cwd"] = startDir
					fn := r.P.Fn(p.pkg, "main")
					for _, q := range c.Call(st, fn, nil) {
						if q.pan != nil {
							c.bad(q.st, "%s", panMsg(q.pan))
						} else if m.count(q.st, "walked") == 0 && m.count(q.st, "failed") == 0 {
							c.bad(q.st, "the tree is not walked")
						}
					}
					if m.walks == 0 && len(c.viol) == 0 {
						c.bad(nil, "the tree is never walked")
					}
				})
			}
		}})
}
