package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Value is one machine value. Scalars: R==nil means the concrete bits N
// (truncated to the width of the type), R==*Term means symbolic.
type Value struct {
	N uint64
	R any
}

type Agg struct{ e []Value }       // struct or array contents
type Slice struct{ s []Value }     // non-nil slice
type SymStr struct{ b []Value }    // string with symbolic bytes / tokens
type Tok struct {                  // a formatted number inside a string
	verb string
	t    *Term
	sgn  bool
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn     *ssa.Function
	bind   []Value
	native func(m *M, args []Value) Value
	name   string
}
type MapObj struct {
	keys  []Value
	vals  []Value
	dead  []bool
	index map[string]int
	n     int
	// any symbolic key present
	sym bool
}
type MapIter struct {
	m    *MapObj
	s    Value // string iteration
	pos  int
	isS  bool
}
type Tuple struct{ v []Value }

type ChanObj struct {
	id     int
	cap    int
	buf    []chanMsg
	closed bool
	sendq  []*sendWait
	closVC vclock
	recvVC vclock
	recvWaiting int
	elem   types.Type
}
type chanMsg struct {
	v  Value
	vc vclock
}
type sendWait struct {
	g    *G
	v    Value
	vc   vclock
	done bool
}

type unsupported string

func (u unsupported) Error() string { return string(u) }

func conc(n uint64) Value { return Value{N: n} }
func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func strV(s string) Value { return Value{R: s} }

func isStr(v Value) bool {
	switch v.R.(type) {
	case nil, string, *SymStr:
		return true
	}
	return false
}

func goStr(v Value) string {
	switch r := v.R.(type) {
	case nil:
		return ""
	case string:
		return r
	case *SymStr:
		b := make([]byte, 0, len(r.b))
		for _, x := range r.b {
			switch y := x.R.(type) {
			case nil:
				b = append(b, byte(x.N))
			case *Tok:
				b = append(b, "<"+y.verb+">"...)
			default:
				b = append(b, '?')
			}
		}
		return string(b)
	}
	panic(unsupported(fmt.Sprintf("goStr of %T", v.R)))
}

func symStr(b []Value) Value {
	for _, x := range b {
		if x.R != nil {
			return Value{R: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.N)
	}
	if len(bs) == 0 {
		return Value{}
	}
	return Value{R: string(bs)}
}

func strBytes(v Value) []Value {
	switch r := v.R.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(r))
		for i := 0; i < len(r); i++ {
			b[i].N = uint64(r[i])
		}
		return b
	case *SymStr:
		return r.b
	}
	panic(unsupported(fmt.Sprintf("strBytes of %T", v.R)))
}

func strLen(v Value) int {
	switch r := v.R.(type) {
	case nil:
		return 0
	case string:
		return len(r)
	case *SymStr:
		for _, x := range r.b {
			if _, ok := x.R.(*Tok); ok {
				panic(unsupported("length of a string holding a formatted symbolic number"))
			}
		}
		return len(r.b)
	}
	panic(unsupported(fmt.Sprintf("strLen of %T", v.R)))
}

// kinds of types, cached per types.Type by the compiler
type kind uint8

const (
	kInt   kind = iota // integers incl. bool? no
	kBool
	kFloat
	kString
	kAgg   // struct/array
	kRef   // pointer, slice, map, chan, func, interface, unsafe pointer
	kTuple
	kOther
)

func under(t types.Type) types.Type { return t.Underlying() }

// basicInfo returns bit width and signedness of an integer type
func intInfo(t types.Type) (w uint8, sgn bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func kindOf(t types.Type) kind {
	switch u := under(t).(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return kBool
		case i&types.IsInteger != 0:
			return kInt
		case i&types.IsFloat != 0:
			return kFloat
		case i&types.IsString != 0:
			return kString
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return kRef
		}
		return kOther
	case *types.Struct, *types.Array:
		return kAgg
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return kRef
	case *types.Tuple:
		return kTuple
	}
	return kOther
}

// zero builds a fresh zero value (cells for aggregates).
func zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		n := u.NumFields()
		a := &Agg{make([]Value, n)}
		for i := 0; i < n; i++ {
			if kindOf(u.Field(i).Type()) == kAgg {
				a.e[i] = zero(u.Field(i).Type())
			}
		}
		return Value{R: a}
	case *types.Array:
		n := int(u.Len())
		a := &Agg{make([]Value, n)}
		if kindOf(u.Elem()) == kAgg {
			for i := range a.e {
				a.e[i] = zero(u.Elem())
			}
		}
		return Value{R: a}
	case *types.Tuple:
		tp := &Tuple{make([]Value, u.Len())}
		for i := range tp.v {
			tp.v[i] = zero(u.At(i).Type())
		}
		return Value{R: tp}
	}
	return Value{}
}

// copyVal deep-copies aggregates.
func copyVal(v Value) Value {
	if a, ok := v.R.(*Agg); ok {
		n := &Agg{make([]Value, len(a.e))}
		for i := range a.e {
			n.e[i] = copyVal(a.e[i])
		}
		return Value{R: n}
	}
	return v
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch kindOf(t) {
	case kBool:
		return boolV(constant.BoolVal(c.Value))
	case kInt:
		w, _, _ := intInfo(t)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return conc(uint64(i) & maskW(w))
		}
		u, _ := constant.Uint64Val(v)
		return conc(u & maskW(w))
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return conc(math.Float64bits(f))
	case kString:
		if c.Value.Kind() == constant.String {
			s := constant.StringVal(c.Value)
			if s == "" {
				return Value{}
			}
			return Value{R: s}
		}
		i, _ := constant.Int64Val(c.Value)
		return Value{R: string(rune(i))}
	case kRef:
		if constant.ToInt(c.Value).Kind() == constant.Int {
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return conc(uint64(i))
		}
	}
	panic(unsupported("constant of type " + t.String()))
}

// map keys

func mapKey(v Value) (string, bool) {
	switch r := v.R.(type) {
	case nil:
		return fmt.Sprintf("n%x", v.N), true
	case string:
		if r == "" {
			return "n0", true
		}
		return "s" + r, true
	case *SymStr, *Term:
		return "", false
	case *Iface:
		k, ok := mapKey(r.v)
		return "i" + r.t.String() + "|" + k, ok
	case *Agg:
		s := "a"
		for _, x := range r.e {
			k, ok := mapKey(x)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s", len(k), k)
		}
		return s, true
	default:
		return fmt.Sprintf("p%p", r), true
	}
}
