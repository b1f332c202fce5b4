package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func (ex *Ex) typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (ex *Ex) sortOf(t types.Type) *Sort {
	c := ex.c
	if s, ok := ex.sortMemo[t]; ok {
		return s
	}
	var s *Sort
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		ex.sortMemo[t] = c.Int
		return c.Int
	}
	if isBuilder(t) {
		ex.sortMemo[t] = c.Str
		return c.Str
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			s = c.Bool
		case u.Info()&types.IsInteger != 0:
			s = c.Int
		case u.Info()&types.IsString != 0:
			s = c.Str
		case u.Info()&types.IsFloat != 0:
			s = c.F64
		case u.Kind() == types.UnsafePointer:
			s = c.Int
		case u.Kind() == types.UntypedNil:
			s = c.Iface
		}
	case *types.Struct:
		name := ex.typeName(t)
		if x, ok := c.sorts[name]; ok {
			s = x
			break
		}
		s = &Sort{Kind: KStruct, Name: name}
		c.sorts[name] = s
		ex.sortMemo[t] = s
		for i := 0; i < u.NumFields(); i++ {
			s.Fields = append(s.Fields, FieldS{u.Field(i).Name(), ex.sortOf(u.Field(i).Type())})
		}
	case *types.Slice:
		s = c.SeqOf(ex.sortOf(u.Elem()))
	case *types.Array:
		s = c.SeqOf(ex.sortOf(u.Elem()))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		s = c.Int
	case *types.Interface:
		s = c.Iface
	case *types.Tuple:
		return nil
	}
	if s == nil {
		unsup("no sort for type %s", t)
	}
	ex.sortMemo[t] = s
	return s
}

func (ex *Ex) mapSort(m *types.Map) *Sort {
	return ex.c.MapOf(ex.sortOf(m.Key()), ex.sortOf(m.Elem()))
}

// isBuilder: a strings.Builder stands for the text written to it
func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
}

func (ex *Ex) zero(t types.Type) *Term {
	c := ex.c
	if isBuilder(t) {
		return c.StrLit("")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.F
		case u.Info()&types.IsInteger != 0:
			return c.IntLit(0)
		case u.Info()&types.IsString != 0:
			return c.StrLit("")
		case u.Info()&types.IsFloat != 0:
			return ex.floatLit("0")
		}
		return c.IntLit(0)
	case *types.Struct:
		s := ex.sortOf(t)
		if s == c.Int { // sync types are opaque
			return c.IntLit(0)
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = ex.zero(u.Field(i).Type())
		}
		return c.Mk(s, args)
	case *types.Array:
		return c.SeqZero(ex.sortOf(t), c.IntLit(u.Len()), ex.zero(u.Elem()))
	case *types.Slice:
		return c.Empty(ex.sortOf(t))
	case *types.Interface:
		return c.NilI
	default:
		return c.IntLit(0)
	}
}

func (ex *Ex) emptyMap(m *types.Map) *Term {
	s := ex.mapSort(m)
	return ex.c.Mk(s, []*Term{ex.c.ConstArr(s.Fields[0].Sort, ex.c.F), ex.c.ConstArr(s.Fields[1].Sort, ex.zero(m.Elem()))})
}

func (ex *Ex) floatLit(v string) *Term { return ex.c.intern("f64lit", nil, ex.c.F64, nil, v) }

func isIntType(t types.Type) (bits int, signed bool, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func typeRange(t types.Type) (lo, hi *big.Int) {
	bits, signed, ok := isIntType(t)
	if !ok {
		return nil, nil
	}
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	}
	return new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1))
}

// rangeOf: intrinsic bounds of a term (from how it was built)
func (ex *Ex) rangeOf(t *Term) (lo, hi *big.Int, ok bool) {
	if r, has := ex.ranges[t]; has {
		return r[0], r[1], true
	}
	switch t.Op {
	case "int":
		return t.I, t.I, true
	case "slen", "seq.len":
		return new(big.Int), nil, true
	case "sat":
		return new(big.Int), big.NewInt(255), true
	case "mod":
		if t.Args[1].Op == "int" && t.Args[1].I.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(t.Args[1].I, big.NewInt(1)), true
		}
	case "div":
		if t.Args[1].Op == "int" && t.Args[1].I.Sign() > 0 {
			a, b, ok := ex.rangeOf(t.Args[0])
			if ok {
				if a != nil {
					a = new(big.Int).Div(a, t.Args[1].I)
				}
				if b != nil {
					b = new(big.Int).Div(b, t.Args[1].I)
				}
				return a, b, true
			}
		}
	case "ite":
		a1, b1, o1 := ex.rangeOf(t.Args[1])
		a2, b2, o2 := ex.rangeOf(t.Args[2])
		if o1 && o2 {
			var lo, hi *big.Int
			if a1 != nil && a2 != nil {
				lo = a1
				if a2.Cmp(lo) < 0 {
					lo = a2
				}
			}
			if b1 != nil && b2 != nil {
				hi = b1
				if b2.Cmp(hi) > 0 {
					hi = b2
				}
			}
			return lo, hi, true
		}
	case "+", "*":
		l := ex.c.toLin(t)
		if _, self := l.cs[t]; self {
			return nil, nil, false
		}
		lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
		for a, k := range l.cs {
			x, y, ok := ex.rangeOf(a)
			if !ok {
				return nil, nil, false
			}
			if k.Sign() < 0 {
				x, y = y, x
			}
			if x == nil {
				lo = nil
			} else if lo != nil {
				lo.Add(lo, new(big.Int).Mul(k, x))
			}
			if y == nil {
				hi = nil
			} else if hi != nil {
				hi.Add(hi, new(big.Int).Mul(k, y))
			}
		}
		return lo, hi, true
	default:
		if strings.HasPrefix(t.Op, "app:") {
			if r, has := ex.fnRange[t.Op[4:]]; has {
				return r[0], r[1], true
			}
		}
	}
	return nil, nil, false
}

// wrap reduces a mathematical result to the machine type
func (ex *Ex) wrap(t *Term, ty types.Type) *Term {
	bits, signed, ok := isIntType(ty)
	if !ok {
		return t
	}
	if bits == 64 && signed {
		return t // int and int64 are treated as mathematical integers (stated assumption)
	}
	lo, hi := typeRange(ty)
	if a, b, ok := ex.rangeOf(t); ok && a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return t
	}
	c := ex.c
	if !signed {
		return c.Mod(t, c.BigLit(pow2(bits)))
	}
	h := c.BigLit(pow2(bits - 1))
	return c.Sub(c.Mod(c.Add(t, h), c.BigLit(pow2(bits))), h)
}

// noteType records the machine range of a value read from memory
func (ex *Ex) noteType(t *Term, ty types.Type) {
	if t == nil || t.Sort != ex.c.Int || t.Op == "int" || t.Op == "mapid" {
		return
	}
	if _, _, has := ex.rangeOf(t); has {
		return
	}
	bits, signed, ok := isIntType(ty)
	if !ok || (bits == 64 && signed) {
		return
	}
	lo, hi := typeRange(ty)
	ex.ranges[t] = [2]*big.Int{lo, hi}
}

var _ = fmt.Sprint
