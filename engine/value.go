package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program:
//
//	bool, int64 (every integer type, normalised to its width and sign),
//	float64, complex128, string, *Term (symbolic scalar), *SymStr,
//	*Value (pointer), *SymPtr, Slice, Struct, Array, Tuple, *MapV,
//	*FuncV, Iface, *Iter, *ChanV, DataPtr, nil (untyped zero)
type Value = any

type Struct []Value
type Array []Value
type Tuple []Value
type Slice []Value

// SymStr is a string of known length with some symbolic bytes.
type SymStr struct{ b []Value }

type Iface struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn      *Fn
	free    []Value
	builtin *ssa.Builtin
	bound   Value // receiver for intrinsic bound methods
}

type MapEnt struct {
	k    Value
	v    Value // slot
	dead bool
}

type MapV struct {
	ents []*MapEnt
	idx  map[string]int32
	nsym int // entries with symbolic keys
	live int
	kt   types.Type
}

type Iter struct {
	back int   // number of entries to go backwards through
	pos  Value // int64; a slot, so that the trail restores it
	m    *MapV
	str  Value
}

// SymPtr is a pointer to one of several elements, selected by idx.
type SymPtr struct {
	slots []Value
	idx   *Term
	n     numInfo
}

// DataPtr is what unsafe.SliceData/StringData return.
type DataPtr struct{ s Slice }

type ChanV struct{}

type unsupported struct{ msg string }

func unsup(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

type numKind uint8

const (
	nkNone numKind = iota
	nkBool
	nkInt
	nkFloat
	nkComplex
	nkString
)

type numInfo struct {
	kind   numKind
	w      uint8
	signed bool
}

func numOf(t types.Type) numInfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return numInfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return numInfo{kind: nkBool}
	case types.Int, types.Int64, types.UntypedInt:
		return numInfo{nkInt, 64, true}
	case types.Int8:
		return numInfo{nkInt, 8, true}
	case types.Int16:
		return numInfo{nkInt, 16, true}
	case types.Int32, types.UntypedRune:
		return numInfo{nkInt, 32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return numInfo{nkInt, 64, false}
	case types.Uint8:
		return numInfo{nkInt, 8, false}
	case types.Uint16:
		return numInfo{nkInt, 16, false}
	case types.Uint32:
		return numInfo{nkInt, 32, false}
	case types.Float32:
		return numInfo{nkFloat, 32, true}
	case types.Float64, types.UntypedFloat:
		return numInfo{nkFloat, 64, true}
	case types.Complex64, types.Complex128, types.UntypedComplex:
		return numInfo{kind: nkComplex}
	case types.String, types.UntypedString:
		return numInfo{kind: nkString}
	}
	return numInfo{}
}

func norm(u uint64, n numInfo) int64 {
	if n.w == 64 {
		return int64(u)
	}
	if n.signed {
		return sx(u&wmask(n.w), n.w)
	}
	return int64(u & wmask(n.w))
}

func zeroOf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch numOf(u).kind {
		case nkBool:
			return false
		case nkInt:
			return int64(0)
		case nkFloat:
			return float64(0)
		case nkComplex:
			return complex128(0)
		case nkString:
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		return nil
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zeroOf(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			if _, agg := zeroOf(u.Elem()).(Struct); !agg {
				if _, agg := zeroOf(u.Elem()).(Array); !agg {
					z := zeroOf(u.Elem())
					for i := range a {
						a[i] = z
					}
					return a
				}
			}
			for i := range a {
				a[i] = zeroOf(u.Elem())
			}
		}
		return a
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = zeroOf(u.At(i).Type())
		}
		return tu
	}
	unsup("zero of %v", t)
	return nil
}

// copyVal deep-copies the aggregates of v (not what it points to).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{b: b}
		}
	}
	s := make([]byte, len(b))
	for i, x := range b {
		s[i] = byte(x.(int64))
	}
	return string(s)
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return int64(v[i])
	case *SymStr:
		return v.b[i]
	}
	panic(fmt.Sprintf("strAt: %T", v))
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		b := make([]Value, len(v))
		for i := range b {
			b[i] = int64(v[i])
		}
		return b
	case *SymStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes: %T", v))
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi:hi])
	}
	panic(fmt.Sprintf("strSlice: %T", v))
}

func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	p, q := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(p)+len(q))
	r = append(r, p...)
	r = append(r, q...)
	return mkStr(r)
}

// keyStr encodes a concrete map key; ok is false if it has symbolic parts.
func keyStr(sb *strings.Builder, v Value) bool {
	switch v := v.(type) {
	case string:
		sb.WriteByte('s')
		sb.WriteString(strconv.Itoa(len(v)))
		sb.WriteByte(':')
		sb.WriteString(v)
		return true
	case int64:
		sb.WriteByte('i')
		sb.WriteString(strconv.FormatInt(v, 36))
		sb.WriteByte(';')
		return true
	case bool:
		if v {
			sb.WriteByte('T')
		} else {
			sb.WriteByte('F')
		}
		return true
	case float64:
		if v == 0 {
			v = 0
		}
		sb.WriteByte('f')
		sb.WriteString(strconv.FormatUint(math.Float64bits(v), 36))
		sb.WriteByte(';')
		return true
	case Struct:
		for _, x := range v {
			if !keyStr(sb, x) {
				return false
			}
		}
		return true
	case Array:
		for _, x := range v {
			if !keyStr(sb, x) {
				return false
			}
		}
		return true
	case Iface:
		if v.t == nil {
			sb.WriteByte('n')
			return true
		}
		sb.WriteString("I" + v.t.String() + "|")
		return keyStr(sb, v.v)
	case *Value:
		fmt.Fprintf(sb, "p%p;", v)
		return true
	case *Term, *SymStr:
		return false
	}
	unsup("map key %T", v)
	return false
}

func describe(v Value) string {
	switch v := v.(type) {
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("sym\"")
		for _, b := range v.b {
			if c, ok := b.(int64); ok {
				sb.WriteByte(byte(c))
			} else {
				sb.WriteString("<" + b.(*Term).String() + ">")
			}
		}
		sb.WriteString("\"")
		return sb.String()
	case *Term:
		return v.String()
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return fmt.Sprintf("(%v)%s", v.t, describe(v.v))
	case string:
		return strconv.Quote(v)
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + fmt.Sprintf("%T", *v)
	}
	return fmt.Sprintf("%v", v)
}
