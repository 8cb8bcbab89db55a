package main

import (
	"fmt"
	"sort"
	"strings"
)

func (x *Exec) l(l Lin) string { return x.ST.Str(l) }

func (x *Exec) showVals(vs []Val) string {
	var r []string
	for _, v := range vs {
		r = append(r, x.show(v))
	}
	return strings.Join(r, ", ")
}

func (x *Exec) showPath(p []PE) string {
	var b strings.Builder
	for _, e := range p {
		if e.Idx != nil {
			b.WriteString("[" + x.l(*e.Idx) + "]")
		} else {
			fmt.Fprintf(&b, ".%d", e.F)
		}
	}
	return b.String()
}

func (x *Exec) showBX(b BX) string {
	n := ""
	if b.Neg {
		n = "!"
	}
	switch b.Kind {
	case 'c':
		return fmt.Sprint(b.C)
	case 'g':
		return n + "(" + x.l(b.L) + ">=0)"
	case 'e':
		return n + "(" + x.l(b.L) + "==0)"
	}
	return n + b.F.Pred + "(" + x.showVals(b.F.Args) + ")"
}

func (x *Exec) show(v Val) string {
	switch v := v.(type) {
	case nil:
		return "_"
	case VNum:
		return x.l(v.L)
	case VBool:
		return x.showBX(v.B)
	case VNil:
		return "nil"
	case VTop:
		return "?"
	case VPtr:
		return fmt.Sprintf("&obj%d%s", v.Obj, x.showPath(v.Path))
	case VSlice:
		return fmt.Sprintf("obj%d%s[%s:+%s]", v.Obj, x.showPath(v.Path), x.l(v.Off), x.l(v.Len))
	case VStruct:
		return "{" + x.showVals(v.F) + "}"
	case VTuple:
		return "(" + x.showVals(v.F) + ")"
	case VArr:
		return "[" + x.showSeq(v.C) + "]"
	case VFunc:
		return v.Fn.Name()
	case VIface:
		return tstr(v.T) + "(" + x.show(v.V) + ")"
	case VTerm:
		s := v.Fn
		if v.Uniq > 0 {
			s += fmt.Sprintf("@%d", v.Uniq)
		}
		if len(v.Args) > 0 {
			s += "(" + x.showVals(v.Args) + ")"
		}
		return s
	case VElem:
		return v.B.Name + "[" + x.l(v.Idx) + "]"
	}
	return fmt.Sprintf("%T", v)
}

func (x *Exec) showSeq(s Seq) string {
	var r []string
	for _, p := range s {
		switch p.Kind {
		case PSeg:
			r = append(r, fmt.Sprintf("%s[%s:%s]", p.B.Name, x.l(p.From), x.l(p.To)))
		case PRev:
			r = append(r, fmt.Sprintf("%s[%s downto %s)", p.B.Name, x.l(p.From), x.l(p.To)))
		case POne:
			r = append(r, x.show(p.V))
		case PRep:
			r = append(r, fmt.Sprintf("%s*%s", x.l(p.N), x.show(p.V)))
		case PFilt:
			r = append(r, fmt.Sprintf("filter(%s[%s:%s],%v %s)", p.B.Name, x.l(p.From), x.l(p.To), !p.Pred.Neg, x.showVals(p.Pred.F.Args)))
		case PEv:
			a := ""
			for _, e := range p.Ann {
				a += fmt.Sprintf("|%s=%v", x.showVals(e.F.Args), e.V)
			}
			r = append(r, fmt.Sprintf("for %s..%s {%s%s}", x.l(p.From), x.l(p.To), x.show(p.V), a))
		case PMix:
			r = append(r, fmt.Sprintf("%s*?", x.l(p.N)))
		}
	}
	return strings.Join(r, " ++ ")
}

func (x *Exec) showState(st *State) string {
	var b strings.Builder
	ids := objIDs(st)
	for _, id := range ids {
		o := st.objs[id]
		if o.Heap != "" && strings.Contains(o.Heap, "/") {
			continue
		}
		switch o.Kind {
		case OMem:
			fmt.Fprintf(&b, "  obj%d = %s\n", id, x.show(o.V))
		case ORun:
			fmt.Fprintf(&b, "  obj%d = run[%s] -> %s\n", id, x.showSeq(o.C), x.show(o.Next))
		case OMap:
			fmt.Fprintf(&b, "  obj%d = map len %s", id, x.l(o.M.Len))
			for _, u := range o.M.Upd {
				if u.Del {
					fmt.Fprintf(&b, " -%s", x.show(u.K))
				} else {
					fmt.Fprintf(&b, " %s:%s", x.show(u.K), x.show(u.V))
				}
			}
			b.WriteString("\n")
		}
	}
	if len(st.trace) > 0 {
		fmt.Fprintf(&b, "  trace %s\n", x.showSeq(st.trace))
	}
	for _, o := range st.ops {
		fmt.Fprintf(&b, "  *%s%s = %s\n", x.show(o.Ptr), o.Path, x.show(o.V))
	}
	for _, c := range st.cons {
		op := ">="
		if c.Eq {
			op = "=="
		}
		fmt.Fprintf(&b, "  %s %s 0\n", x.l(c.L), op)
	}
	var fs []string
	for _, f := range st.facts {
		fs = append(fs, fmt.Sprintf("  %s(%s) = %v\n", f.F.Pred, x.showVals(f.F.Args), f.V))
	}
	sort.Strings(fs)
	b.WriteString(strings.Join(fs, ""))
	return b.String()
}
