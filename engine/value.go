package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type structure []Value
type array []Value
type slice []Value
type tuple []Value

type iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type NativeFn func(p *Path, g *G, args []Value) Value

type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	vc     VC   // clock of the close
	bufvc  []VC // clocks of buffered sends
	never  bool
}

type MapV struct {
	keys []Value
	vals []*Value
	kt   types.Type
}

// SymStr is a string with symbolic bytes or tokens
type SymStr struct{ b []Value }

// NumTok is one "character" standing for the text of a whole number
type NumTok struct {
	v   Value // Rl or float64 special or *Term
	txt int   // index of the input text, -1 if formatted by the program
}

// JTok is one "character" standing for a whole JSON document
type JTok struct{ doc *JNode }

type targetPanic struct{ v Value }

func (t targetPanic) String() string { return "target panic" }

type runtimeErr string

type abortPath struct{ why string }
type endPath struct{} // normal early end (assumption failed, pruned)

type intKind struct {
	w      int
	signed bool
}

type kindClass uint8

const (
	kOther kindClass = iota
	kBool
	kInt
	kFloat
	kString
	kComplex
)

func classify(t types.Type) (kindClass, intKind) {
	if t == nil {
		return kOther, intKind{}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kOther, intKind{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kBool, intKind{}
	case types.Int, types.Int64, types.UntypedInt:
		return kInt, intKind{64, true}
	case types.Int8:
		return kInt, intKind{8, true}
	case types.Int16:
		return kInt, intKind{16, true}
	case types.Int32, types.UntypedRune:
		return kInt, intKind{32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return kInt, intKind{64, false}
	case types.Uint8:
		return kInt, intKind{8, false}
	case types.Uint16:
		return kInt, intKind{16, false}
	case types.Uint32:
		return kInt, intKind{32, false}
	case types.Float64, types.UntypedFloat, types.Float32:
		return kFloat, intKind{}
	case types.String, types.UntypedString:
		return kString, intKind{}
	case types.Complex64, types.Complex128:
		return kComplex, intKind{}
	}
	return kOther, intKind{}
}

func wrapInt(v int64, k intKind) int64 {
	if k.w == 64 {
		return v
	}
	if k.signed {
		return sext(uint64(v), k.w)
	}
	return int64(uint64(v) & mask(k.w))
}

func (p *Path) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		c, _ := classify(t)
		switch c {
		case kBool:
			return false
		case kInt:
			return int64(0)
		case kFloat:
			if p.fp {
				return float64(0)
			}
			return rlZero
		case kString:
			return ""
		case kComplex:
			return complex(0, 0)
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		return nil
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		if len(a) > 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = p.zero(u.Elem())
				}
			default:
				z := p.zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return slice(nil)
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = p.zero(u.At(i).Type())
		}
		return s
	}
	panic(abortPath{fmt.Sprintf("zero of %v", t)})
}

// copyVal copies aggregates (value semantics)
func copyVal(v Value) Value {
	switch x := v.(type) {
	case structure:
		n := make(structure, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case array:
		n := make(array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

// storeInto assigns v to *a keeping interior pointers valid
func storeInto(a *Value, v Value) {
	switch x := v.(type) {
	case structure:
		if d, ok := (*a).(structure); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*a = copyVal(v)
	case array:
		if d, ok := (*a).(array); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*a = copyVal(v)
	default:
		*a = v
	}
}

func isSpecial(v Value) (float64, bool) { // NaN/Inf in real mode, or fp constant
	f, ok := v.(float64)
	return f, ok
}

func (p *Path) fl(f float64) Value {
	if p.fp {
		return f
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return f
	}
	return rlConst(floatToRat(f))
}

func rl(r *Rl) Value { return r }

func concreteFloat(v Value) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case *Rl:
		if x.isConst() {
			f, _ := x.constVal().Float64()
			return f, true
		}
	case *Term:
		if x.isConst() && x.sort == SFP {
			return fpv(x), true
		}
	}
	return 0, false
}

func strBytes(v Value) []Value {
	switch x := v.(type) {
	case string:
		out := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			out[i] = int64(x[i])
		}
		return out
	case *SymStr:
		return x.b
	}
	panic(abortPath{fmt.Sprintf("not a string: %T", v)})
}

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(abortPath{fmt.Sprintf("not a string: %T", v)})
}

func mkStr(b []Value) Value {
	var sb strings.Builder
	for _, x := range b {
		c, ok := x.(int64)
		if !ok {
			return &SymStr{append([]Value(nil), b...)}
		}
		sb.WriteByte(byte(c))
	}
	return sb.String()
}

func byteOf(v Value) Value { // tokens behave like a digit in arithmetic
	switch v.(type) {
	case *NumTok, *JTok:
		return int64('7')
	}
	return v
}

func debugVal(v Value) string { return debugValD(v, 4) }

func debugValD(v Value, d int) string {
	if d < 0 {
		return "..."
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Rl:
		if x.isConst() {
			return x.constVal().RatString()
		}
		return fmt.Sprintf("sym-real(%d terms,%d dens)", len(x.num.t), len(x.den))
	case *Term:
		return fmt.Sprintf("sym(%d)", x.id)
	case structure:
		var s []string
		for _, e := range x {
			s = append(s, debugValD(e, d-1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case array:
		return debugValD(structure(x), d)
	case slice:
		return "[]" + debugValD(structure(x), d)
	case tuple:
		return "T" + debugValD(structure(x), d)
	case iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.t, debugValD(x.v, d-1))
	case *Value:
		if x == nil {
			return "nilptr"
		}
		return "&" + debugValD(*x, d-1)
	case *big.Rat:
		return x.RatString()
	case *SymStr:
		return fmt.Sprintf("symstr%d", len(x.b))
	}
	return fmt.Sprintf("%v", v)
}
