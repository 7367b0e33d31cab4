package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreter value:
//
//	Conc               concrete bool / integer / float bits (masked to its width)
//	*Expr              symbolic bool / integer / float bits
//	string, *SymStr, *Opaque   strings
//	Slice, Struct, Arr, Tuple
//	*Value             pointer (nil pointer: (*Value)(nil))
//	*SymPtr            pointer to an element chosen by a symbolic index
//	Iface, *Map, *Chan, *ssa.Function, *Closure, *ssa.Builtin, *RangeIter
type Value = any

type Conc uint64
type Slice []Value
type Struct []Value
type Arr []Value
type Tuple []Value
type SymStr struct{ b []Value }
type Opaque struct {
	tag string
	n   int
}
type SymPtr struct {
	elems []Value
	idx   *Expr
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}

var nilFunc = (*Closure)(nil)

// TK describes a basic type.
type TK struct {
	kind   uint8 // kInt, kBool, kFloat, kString, kOther...
	w      uint8
	signed bool
}

const (
	kOther uint8 = iota
	kInt
	kBool
	kFloat
	kString
	kUnsafe
	kComplex
)

func tkOf(t types.Type) TK {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return TK{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return TK{kBool, 0, false}
	case types.Int, types.UntypedInt, types.Int64:
		return TK{kInt, 64, true}
	case types.Int8:
		return TK{kInt, 8, true}
	case types.Int16:
		return TK{kInt, 16, true}
	case types.Int32, types.UntypedRune:
		return TK{kInt, 32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return TK{kInt, 64, false}
	case types.Uint8:
		return TK{kInt, 8, false}
	case types.Uint16:
		return TK{kInt, 16, false}
	case types.Uint32:
		return TK{kInt, 32, false}
	case types.Float32:
		return TK{kFloat, 32, true}
	case types.Float64, types.UntypedFloat:
		return TK{kFloat, 64, true}
	case types.String, types.UntypedString:
		return TK{kString, 0, false}
	case types.UnsafePointer:
		return TK{kUnsafe, 0, false}
	case types.Complex64, types.Complex128, types.UntypedComplex:
		return TK{kComplex, 0, false}
	}
	return TK{}
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch tkOf(t).kind {
		case kInt, kBool, kFloat:
			return Conc(0)
		case kString:
			return ""
		case kUnsafe:
			return (*Value)(nil)
		}
		if t.Kind() == types.UntypedNil {
			return nil
		}
		return Conc(0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(Arr, t.Len())
		z := zero(t.Elem())
		if isAgg(z) {
			for i := range a {
				a[i] = zero(t.Elem())
			}
		} else {
			for i := range a {
				a[i] = z
			}
		}
		return a
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return nilFunc
	case *types.TypeParam:
		panic(unsupported{"zero of type parameter"})
	}
	panic(unsupported{fmt.Sprintf("zero of %v", t)})
}

func isAgg(v Value) bool {
	switch v.(type) {
	case Struct, Arr:
		return true
	}
	return false
}

// copyVal copies aggregates.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			if isAgg(e) {
				e = copyVal(e)
			}
			n[i] = e
		}
		return n
	case Arr:
		n := make(Arr, len(x))
		copy(n, x)
		if len(x) > 0 && isAgg(x[0]) {
			for i, e := range x {
				n[i] = copyVal(e)
			}
		}
		return n
	}
	return v
}

func storeTo(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	case Arr:
		if d, ok := (*p).(Arr); ok && len(d) == len(x) {
			if len(x) > 0 && isAgg(x[0]) {
				for i := range x {
					storeTo(&d[i], x[i])
				}
			} else {
				copy(d, x)
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	tk := tkOf(t)
	switch tk.kind {
	case kBool:
		if constant.BoolVal(c.Value) {
			return Conc(1)
		}
		return Conc(0)
	case kInt:
		if tk.signed {
			if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return Conc(uint64(v) & mask(tk.w))
			}
		}
		if v, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return Conc(v & mask(tk.w))
		}
		v, _ := constant.Int64Val(constant.ToInt(c.Value))
		return Conc(uint64(v) & mask(tk.w))
	case kFloat:
		if tk.w == 32 {
			f, _ := constant.Float32Val(c.Value)
			return Conc(math.Float32bits(f))
		}
		f, _ := constant.Float64Val(c.Value)
		return Conc(math.Float64bits(f))
	case kString:
		return constant.StringVal(c.Value)
	case kUnsafe:
		return (*Value)(nil)
	case kComplex:
		return Conc(0)
	}
	if _, ok := t.(*types.TypeParam); ok {
		panic(unsupported{"const of type parameter"})
	}
	panic(unsupported{fmt.Sprintf("const %v", c)})
}

// ---- strings ----

func mkStr(b []Value) Value {
	allc := true
	for _, x := range b {
		if _, ok := x.(Conc); !ok {
			allc = false
			break
		}
	}
	if allc {
		var sb strings.Builder
		sb.Grow(len(b))
		for _, x := range b {
			sb.WriteByte(byte(x.(Conc)))
		}
		return sb.String()
	}
	return &SymStr{b}
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = Conc(s[i])
		}
		return b
	case *SymStr:
		return s.b
	case *Opaque:
		panic(unsupported{"contents of opaque string " + s.tag})
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *Opaque:
		panic(unsupported{"length of opaque string " + s.tag})
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic(unsupported{"slice of opaque string"})
}

func strConcat(a, b Value) Value {
	sa, oka := a.(string)
	sb, okb := b.(string)
	if oka && okb {
		return sa + sb
	}
	if oka && sa == "" {
		return b
	}
	if okb && sb == "" {
		return a
	}
	if o, ok := a.(*Opaque); ok {
		return o
	}
	if o, ok := b.(*Opaque); ok {
		return o
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

// ---- maps ----

type mapEntry struct {
	k, v Value
	live bool
}
type Map struct {
	ents []*mapEntry
	idx  map[Value]*mapEntry // concrete int / string keys
	n    int
	kt   types.Type
	nsym int // live entries that are not in idx
}

func newMap(kt types.Type) *Map {
	return &Map{idx: map[Value]*mapEntry{}, kt: kt}
}

func directKey(k Value, kt types.Type) (Value, bool) {
	switch x := k.(type) {
	case string:
		return x, true
	case Conc:
		if tkOf(kt).kind == kFloat {
			return nil, false
		}
		return x, true
	}
	return nil, false
}

func (w *Worker) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	if dk, ok := directKey(k, m.kt); ok {
		if e := m.idx[dk]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if !e.live {
			continue
		}
		if w.truth(w.eq(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	if m == nil {
		panic(w.rtPanic("assignment to entry in nil map"))
	}
	if e := w.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{copyVal(k), copyVal(v), true}
	m.ents = append(m.ents, e)
	m.n++
	if dk, ok := directKey(k, m.kt); ok {
		m.idx[dk] = e
	} else {
		m.nsym++
	}
}

func (w *Worker) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	e.live = false
	m.n--
	if dk, ok := directKey(e.k, m.kt); ok {
		delete(m.idx, dk)
	} else {
		m.nsym--
	}
	out := make([]*mapEntry, 0, len(m.ents))
	for _, x := range m.ents {
		if x.live {
			out = append(out, x)
		}
	}
	m.ents = out
}

type RangeIter struct {
	m    *Map
	ents []*mapEntry
	s    Value
	pos  int
}

// ---- channels ----
type Chan struct {
	cap    int
	buf    []Value
	slot   []Value // unbuffered hand-over
	taken  int
	sent   int
	closed bool
	rwait  int
}

func typeStr(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}
