package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// changing lists the variables of a package of the repository that its code,
// other than the initialiser, may change, or through which it may change other
// memory: their state at the time of a call need not be the initial one.
func (p *Program) changing(pk *ssa.Package) map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
		if isInitFn(fn) {
			return
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg == pk && !r[g] && changes(in, g, map[ssa.Value]bool{}) {
						r[g] = true
					}
				}
			}
		}
	}
	for _, m := range pk.Members {
		switch m := m.(type) {
		case *ssa.Function:
			visit(m)
		case *ssa.Type:
			if n, ok := types.Unalias(m.Type()).(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					if f := p.Prog.FuncValue(n.Method(i)); f != nil {
						visit(f)
					}
				}
			}
		}
	}
	return r
}

func isInitFn(f *ssa.Function) bool {
	return f.Synthetic == "package initializer" || f.Signature.Recv() == nil && len(f.Name()) > 4 && f.Name()[:5] == "init#"
}

// changes reports that instruction in, an operand of which is v (the address of
// a variable, or a value read from one that refers to memory), may change the
// variable or what it refers to.
func changes(in ssa.Instruction, v ssa.Value, seen map[ssa.Value]bool) bool {
	follow := func(w ssa.Value) bool {
		if seen[w] {
			return false
		}
		seen[w] = true
		if w.Referrers() == nil {
			return false
		}
		for _, r := range *w.Referrers() {
			if changes(r, w, seen) {
				return true
			}
		}
		return false
	}
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.If, *ssa.RunDefers, *ssa.Jump, *ssa.Panic:
		return false
	case *ssa.Store:
		return in.Addr == v || refersMem(in.Val.Type())
	case *ssa.UnOp:
		if !refersMem(in.Type()) {
			return false
		}
		return follow(in)
	case *ssa.BinOp, *ssa.Convert, *ssa.TypeAssert:
		return false
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "print", "println":
				return false
			case "copy":
				return in.Call.Args[0] == v
			}
		}
		if in.Call.Value == v {
			return false
		}
		return true
	case *ssa.MapUpdate:
		return true
	case ssa.Value:
		if !refersMem(in.Type()) {
			return false
		}
		return follow(in)
	}
	return true
}

// refersMem reports that a value of the type gives access to memory that can
// be written through it. Interfaces and functions hide theirs.
func refersMem(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refersMem(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refersMem(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refersMem(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}
