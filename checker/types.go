package main

import (
	"regexp"
	"strings"

	"fmt"
	"go/types"
	"math/big"
)

// TM maps type parameters to the types they stand for.
type TM map[*types.TypeParam]types.Type

func subst(tm TM, t types.Type) types.Type {
	if len(tm) == 0 || t == nil {
		return t
	}
	switch t := t.(type) {
	case *types.TypeParam:
		if r, ok := tm[t]; ok {
			return r
		}
		return t
	case *types.Alias:
		return subst(tm, types.Unalias(t))
	case *types.Pointer:
		e := subst(tm, t.Elem())
		if e == t.Elem() {
			return t
		}
		return types.NewPointer(e)
	case *types.Slice:
		e := subst(tm, t.Elem())
		if e == t.Elem() {
			return t
		}
		return types.NewSlice(e)
	case *types.Array:
		e := subst(tm, t.Elem())
		if e == t.Elem() {
			return t
		}
		return types.NewArray(e, t.Len())
	case *types.Chan:
		e := subst(tm, t.Elem())
		if e == t.Elem() {
			return t
		}
		return types.NewChan(t.Dir(), e)
	case *types.Map:
		k, e := subst(tm, t.Key()), subst(tm, t.Elem())
		if k == t.Key() && e == t.Elem() {
			return t
		}
		return types.NewMap(k, e)
	case *types.Named:
		ta := t.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return t
		}
		ch := false
		var l []types.Type
		for i := 0; i < ta.Len(); i++ {
			n := subst(tm, ta.At(i))
			if n != ta.At(i) {
				ch = true
			}
			l = append(l, n)
		}
		if !ch {
			return t
		}
		r, err := types.Instantiate(nil, t.Origin(), l, false)
		if err != nil {
			panic(undecided{"instantiate " + err.Error()})
		}
		return r
	case *types.Tuple:
		var vs []*types.Var
		ch := false
		for i := 0; i < t.Len(); i++ {
			v := t.At(i)
			n := subst(tm, v.Type())
			if n != v.Type() {
				ch = true
				v = types.NewVar(v.Pos(), v.Pkg(), v.Name(), n)
			}
			vs = append(vs, v)
		}
		if !ch {
			return t
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		p := subst(tm, t.Params()).(*types.Tuple)
		r := subst(tm, t.Results()).(*types.Tuple)
		if p == t.Params() && r == t.Results() {
			return t
		}
		return types.NewSignatureType(nil, nil, nil, p, r, t.Variadic())
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		ch := false
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			n := subst(tm, f.Type())
			if n != f.Type() {
				ch = true
				f = types.NewField(f.Pos(), f.Pkg(), f.Name(), n, f.Embedded())
			}
			fs = append(fs, f)
			tags = append(tags, t.Tag(i))
		}
		if !ch {
			return t
		}
		return types.NewStruct(fs, tags)
	}
	return t
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func isTP(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

// under is Underlying, but a type parameter stays itself.
func under(t types.Type) types.Type {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return tp
	}
	return t.Underlying()
}

// coreType of a type parameter whose type set has one underlying type.
func coreOf(t types.Type) types.Type {
	u := under(t)
	tp, ok := u.(*types.TypeParam)
	if !ok {
		return u
	}
	i, _ := tp.Constraint().Underlying().(*types.Interface)
	if i == nil || i.NumEmbeddeds() != 1 {
		return u
	}
	switch e := i.EmbeddedType(0).(type) {
	case *types.Union:
		if e.Len() == 1 {
			return e.Term(0).Type().Underlying()
		}
	default:
		if _, ok := e.Underlying().(*types.Interface); !ok {
			return e.Underlying()
		}
	}
	return u
}

func basicOf(t types.Type) *types.Basic {
	b, _ := under(t).(*types.Basic)
	return b
}

func isInt(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}

func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func isStr(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func intBits(b *types.Basic) (bits uint, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	case types.UntypedInt, types.UntypedRune:
		return 64, true
	}
	panic(undecided{fmt.Sprintf("integer kind %s", b)})
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big1, n) }

func intRange(t types.Type) (lo, hi *big.Int) {
	bits, signed := intBits(basicOf(t))
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big1)
	}
	return big0, new(big.Int).Sub(pow2(bits), big1)
}

func isNilable(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	if b := basicOf(t); b != nil && b.Kind() == types.UnsafePointer {
		return true
	}
	return false
}

func isIface(t types.Type) bool {
	if isTP(t) {
		return false
	}
	_, ok := under(t).(*types.Interface)
	return ok
}

func tstr(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		// the aliases name the same types
		s = aliasRe.ReplaceAllStringFunc(s, func(w string) string {
			if w == "byte" {
				return "uint8"
			}
			return "int32"
		})
	}
	return s
}

var aliasRe = regexp.MustCompile(`\b(byte|rune)\b`)
