package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value

// passThrough is returned by soft intrinsics that decline: the real body is interpreted.
type passThrough struct{}

var intrinsics map[string]intrinsic
var softIntrinsics = map[string]bool{}

type lockState struct {
	w int
	r int
}

func ptrKey(v Value) *Value {
	p, _ := v.(*Value)
	return p
}

// memo records that a sequence of text bytes was produced by formatting a value.
type memo struct {
	made    bool // text made from the value (not the other way round)
	bytes   []Value
	isF     bool
	bits    int
	val     *Expr
	pureInt bool // text consists of an optional sign and digits
}

func (w *Worker) findMemo(b []Value) *memo {
outer:
	for _, m := range w.memos {
		if len(m.bytes) != len(b) {
			continue
		}
		for i := range b {
			if b[i] != m.bytes[i] {
				continue outer
			}
		}
		return m
	}
	return nil
}

func (w *Worker) mkErr(msg string) Value {
	fn := w.eng.fn("errors", "New")
	return w.callFn(nil, fn, []Value{msg}, nil)
}

func nilErr() Value { return Iface{} }

func strOf(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

func concBytes(b []Value) (string, bool) {
	v := mkStr(b)
	s, ok := v.(string)
	return s, ok
}

func nop(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

func first(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value { return args[0] }

// goArg converts a concrete interface value to a Go value for fmt; ok is false when it is not simple.
func (w *Worker) goArg(v Value) (any, bool) {
	i, ok := v.(Iface)
	if !ok {
		return nil, false
	}
	if i.t == nil {
		return nil, true
	}
	named, isNamed := i.t.(*types.Named)
	if isNamed && named.NumMethods() > 0 {
		return nil, false
	}
	b, ok := i.t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := i.v.(type) {
	case string:
		return x, true
	case Conc:
		switch b.Kind() {
		case types.Bool:
			return x != 0, true
		case types.Int:
			return int(x), true
		case types.Int8:
			return int8(x), true
		case types.Int16:
			return int16(x), true
		case types.Int32:
			return int32(x), true
		case types.Int64:
			return int64(x), true
		case types.Uint8:
			return uint8(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint32:
			return uint32(x), true
		case types.Uint64:
			return uint64(x), true
		case types.Uint:
			return uint(x), true
		case types.Float64:
			return math.Float64frombits(uint64(x)), true
		case types.Float32:
			return math.Float32frombits(uint32(x)), true
		}
	}
	return nil, false
}

func (w *Worker) goArgs(v Value) ([]any, bool) {
	s, _ := v.(Slice)
	out := make([]any, len(s))
	for i, x := range s {
		g, ok := w.goArg(x)
		if !ok {
			return nil, false
		}
		out[i] = g
	}
	return out, true
}

var opaqueN int

// opaque is a text whose contents are not modelled.
func (w *Worker) opaque(tag string) Value { return &Opaque{tag: tag} }

// textOf renders v as %v would when it is a string, a decimal integer or an error.
func (w *Worker) textOf(v Value) (Value, bool) {
	if g, ok := w.goArg(v); ok {
		return fmt.Sprint(g), true
	}
	i, _ := v.(Iface)
	if i.t == nil {
		return nil, false
	}
	if _, isNamed := i.t.(*types.Named); !isNamed {
		switch x := i.v.(type) {
		case *SymStr, *Opaque:
			return x, true
		case *Expr:
			tk := tkOf(i.t)
			if tk.kind == kInt {
				e := x
				if tk.signed {
					return w.formatInt(w.cx.Sext(e, 64), 10), true
				}
			}
		}
	}
	return nil, false
}

func (w *Worker) formatInt(e *Expr, base int) Value {
	if e.op == OConst {
		return strconv.FormatInt(int64(e.val), base)
	}
	if w.allPinned(e) {
		return strconv.FormatInt(int64(w.cx.Eval(e)), base)
	}
	if base != 10 {
		panic(unsupported{"symbolic FormatInt base"})
	}
	for _, m := range w.memos {
		if !m.isF && m.val == e && m.made {
			return mkStr(append([]Value(nil), m.bytes...))
		}
	}
	cx := w.cx
	c := func(v int64) *Expr { return cx.Const(64, uint64(v)) }
	neg := w.truth(norm(cx.Slt(e, c(0))))
	var out []Value
	mag := e
	if neg {
		out = append(out, Conc('-'))
		mag = cx.BvNeg(e)
	}
	// number of digits
	n := 1
	p := uint64(10)
	for n < 19 {
		if w.truth(norm(cx.Ult(mag, cx.Const(64, p)))) {
			break
		}
		n++
		p *= 10
	}
	if n == 1 {
		out = append(out, norm(cx.Bin(OBvAdd, cx.Extract(mag, 7, 0), cx.Const(8, '0'))))
	} else {
		sum := c(0)
		for i := 0; i < n; i++ {
			d := w.freshVar(8)
			lo := uint64('0')
			if i == 0 {
				lo = '1'
			}
			w.assumeFresh(cx.And(cx.Ule(cx.Const(8, lo), d), cx.Ule(d, cx.Const(8, '9'))), d, lo)
			out = append(out, d)
			dig := cx.Zext(cx.Bin(OBvSub, d, cx.Const(8, '0')), 64)
			sum = cx.Bin(OBvAdd, cx.Bin(OBvMul, sum, c(10)), dig)
		}
		w.refine = append(w.refine, cx.Eq(sum, mag))
		w.note("decimal digits by contract")
	}
	w.memos = append(w.memos, &memo{bytes: out, val: e, bits: 64, pureInt: true, made: true})
	return mkStr(append([]Value(nil), out...))
}

// assumeFresh constrains a fresh variable, giving it a satisfying value in the current model.
func (w *Worker) assumeFresh(c *Expr, v *Expr, val uint64) {
	if w.cx.Eval(c) == 0 {
		w.model[v.vi] = val
		w.cx.setModel(w.model)
	}
	w.addPC(c)
}

var floatShapes = []string{"d", "-d.d", "d.dde+dd", "0.000d", "-dddddd", "d.dddddddddddddddde-ddd"}

// formatFloat renders a symbolic float: special values exactly, finite ones as one of floatShapes with arbitrary digits.
func (w *Worker) formatFloat(e *Expr, bits int, f64 *Expr) Value {
	cx := w.cx
	if w.allPinned(e) {
		return nil
	}
	isnan, iszero, neg := cx.fparts(e)
	if w.truth(norm(isnan)) {
		return "NaN"
	}
	var inf uint64 = 0x7ff0000000000000
	if e.w == 32 {
		inf = 0x7f800000
	}
	if w.truth(norm(cx.Eq(e, cx.Const(e.w, inf)))) {
		return "+Inf"
	}
	if w.truth(norm(cx.Eq(e, cx.Const(e.w, inf|1<<(e.w-1))))) {
		return "-Inf"
	}
	if w.truth(norm(iszero)) {
		if w.truth(norm(neg)) {
			return "-0"
		}
		return "0"
	}
	for _, m := range w.memos {
		if m.isF && m.val == e && m.made {
			return mkStr(append([]Value(nil), m.bytes...))
		}
	}
	shapes := floatShapes
	sgn := w.truth(norm(neg))
	var sel []string
	for _, s := range shapes {
		if strings.HasPrefix(s, "-") == sgn {
			sel = append(sel, s)
		}
	}
	if sgn {
		sel = append(sel, "-d.dde+dd")
	}
	s := sel[w.choose("floatshape", len(sel))]
	var out []Value
	pure := true
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch != 'd' {
			out = append(out, Conc(ch))
			if ch != '-' || i > 0 {
				pure = false
			}
			continue
		}
		lo := uint64('0')
		prev := byte('-')
		if i > 0 {
			prev = s[i-1]
		}
		if prev == '-' && i <= 1 || i+1 == len(s) || s[i+1] == 'e' {
			lo = '1'
		}
		d := w.freshVar(8)
		w.assumeFresh(cx.And(cx.Ule(cx.Const(8, lo), d), cx.Ule(d, cx.Const(8, '9'))), d, lo)
		out = append(out, d)
	}
	w.note("float text by contract")
	w.memos = append(w.memos, &memo{bytes: out, isF: true, val: e, bits: int(e.w), pureInt: pure, made: true})
	w.refine = append(w.refine, cx.fls) // no exact meaning available: counterexamples through it are not confirmed here
	w.refine = w.refine[:len(w.refine)-1]
	return mkStr(append([]Value(nil), out...))
}

func (w *Worker) parseMemo(b []Value) *memo {
	if len(b) > 0 && b[0] == Value(Conc('+')) {
		b = b[1:]
	}
	return w.findMemo(b)
}

// numErr is a strconv.NumError-like error value.
func (w *Worker) numErr() Value { return w.mkErr("strconv: parsing: invalid syntax") }

func init() {
	intrinsics = map[string]intrinsic{}
	def := func(names string, f intrinsic) {
		for _, n := range strings.Fields(names) {
			intrinsics[n] = f
		}
	}
	soft := func(names string, f intrinsic) {
		def(names, f)
		for _, n := range strings.Fields(names) {
			softIntrinsics[n] = true
		}
	}
	// ---- sym ----
	scalar := func(width uint8) intrinsic {
		return func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
			return w.input(args[0].(string), width)
		}
	}
	def("sym.Byte sym.Int8", scalar(8))
	def("sym.Int16", scalar(16))
	def("sym.Int32 sym.Uint32 sym.Float32", scalar(32))
	def("sym.Int sym.Int64 sym.Uint64 sym.Float64", scalar(64))
	def("sym.Bool", scalar(0))
	def("sym.Choose", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		n := int(w.concretizeV(args[1]))
		if n <= 1 {
			return Conc(0)
		}
		v := w.choose("", n)
		w.inputs = append(w.inputs, Input{name: args[0].(string), val: uint64(v), w: 32})
		return Conc(uint64(v))
	})
	def("sym.Assume", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		w.assume(args[0])
		return nil
	})
	def("sym.Assert", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		msg, _ := args[1].(string)
		w.assert(args[0], msg, "")
		return nil
	})
	def("sym.Reach", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		w.reached[args[0].(string)]++
		return nil
	})
	def("sym.MapOrder", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		w.mapOrder = args[0].(Conc) != 0
		return nil
	})
	def("sym.AllocLimit", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		w.allocLimit = int(args[0].(Conc))
		return nil
	})
	def("sym.MaxAlloc", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		w.maxAlloc = int64(args[0].(Conc))
		return nil
	})
	def("sym.Native", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value { return Conc(0) })
	def("sym.Thorough", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return Conc(b2u(w.eng.thorough))
	})
	def("sym.Concrete", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return Conc(w.concretizeV(args[0]))
	})
	def("sym.Observe", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		s, _ := args[0].(Slice)
		row := make(Slice, len(s))
		for i, x := range s {
			if it, ok := x.(Iface); ok {
				if sl, ok := it.v.(Slice); ok {
					x = Iface{it.t, append(Slice(nil), sl...)}
				}
			}
			row[i] = x
		}
		w.log = append(w.log, row)
		return nil
	})
	def("sym.Gosched runtime.Gosched", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		w.sched.yield(false)
		return nil
	})
	def("time.Sleep", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		w.sched.yield(true)
		return nil
	})
	def("sym.installHTTP", nop)
	// ---- symrt ----
	def("symrt.unsupported", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		panic(unsupported{args[0].(string)})
	})
	def("symrt.sprintf", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return w.sprintf(args[0], args[1])
	})
	alias := func(from, pkg, name string) {
		def(from, func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
			return w.callFn(caller, w.eng.fn(pkg, name), args, nil)
		})
	}
	alias("symrt.decodeRune", "unicode/utf8", "DecodeRuneInString")
	alias("symrt.appendRune", "unicode/utf8", "AppendRune")

	// ---- fmt, log, os ----
	def("fmt.Sprint", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		if g, ok := w.goArgs(args[0]); ok {
			return fmt.Sprint(g...)
		}
		if s, ok := args[0].(Slice); ok && len(s) == 1 {
			if t, ok := w.textOf(s[0]); ok {
				return t
			}
		}
		return w.opaque("Sprint")
	})
	def("fmt.Sprintln", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		if g, ok := w.goArgs(args[0]); ok {
			return fmt.Sprintln(g...)
		}
		return w.opaque("Sprintln")
	})
	def("fmt.Sprintf", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return w.sprintf(args[0], args[1])
	})
	def("fmt.Fprintf fmt.Fprint fmt.Fprintln fmt.Print fmt.Printf fmt.Println", nop)
	def("log.New log.Default", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		p := new(Value)
		*p = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return p
	})
	def("log.Print log.Printf log.Println (*log.Logger).Print (*log.Logger).Printf (*log.Logger).Println (*log.Logger).Output (*log.Logger).SetFlags (*log.Logger).SetPrefix log.SetFlags log.SetOutput log.SetPrefix", nop)
	def("(*log.Logger).Panic (*log.Logger).Panicf (*log.Logger).Panicln log.Panic log.Panicf log.Panicln", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		panic(targetPanic{Iface{types.Typ[types.String], "log panic"}})
	})
	def("(*log.Logger).Fatal (*log.Logger).Fatalf log.Fatal log.Fatalf os.Exit", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		panic(pathEnd{"panic", "process exit"})
	})

	// ---- sync ----
	locks := func(w *Worker, v Value) *lockState {
		k := ptrKey(v)
		if k == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		if w.sched.locks == nil {
			w.sched.locks = map[*Value]*lockState{}
		}
		l := w.sched.locks[k]
		if l == nil {
			l = &lockState{}
			w.sched.locks[k] = l
		}
		return l
	}
	def("(*sync.Mutex).Lock (*sync.RWMutex).Lock (*internal/sync.Mutex).Lock", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		l := locks(w, args[0])
		w.sched.block(func() bool { return l.w == 0 && l.r == 0 })
		l.w = 1
		return nil
	})
	def("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		l := locks(w, args[0])
		if l.w != 0 || l.r != 0 {
			return Conc(0)
		}
		l.w = 1
		return Conc(1)
	})
	def("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock (*internal/sync.Mutex).Unlock", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		l := locks(w, args[0])
		if l.w == 0 {
			panic(pathEnd{"panic", "unlock of unlocked mutex"})
		}
		l.w = 0
		return nil
	})
	def("(*sync.RWMutex).RLock", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		l := locks(w, args[0])
		w.sched.block(func() bool { return l.w == 0 })
		l.r++
		return nil
	})
	def("(*sync.RWMutex).RUnlock", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		locks(w, args[0]).r--
		return nil
	})
	def("(*sync.Once).Do", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		l := locks(w, args[0])
		if l.w == 0 {
			l.w = 1
			w.call(caller, args[1], nil)
		}
		return nil
	})
	def("(*sync.WaitGroup).Add", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		locks(w, args[0]).r += int(int64(w.concretizeV(args[1])))
		return nil
	})
	def("(*sync.WaitGroup).Done", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		locks(w, args[0]).r--
		return nil
	})
	def("(*sync.WaitGroup).Wait", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		l := locks(w, args[0])
		w.sched.block(func() bool { return l.r <= 0 })
		return nil
	})
	def("(*sync.Pool).Get", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		p := ptrKey(args[0])
		s := (*p).(Struct)
		nf := s[len(s)-1] // New is the last field
		if c, ok := nf.(*Closure); ok && c == nil {
			return Iface{}
		}
		return w.call(caller, nf, nil)
	})
	def("(*sync.Pool).Put", nop)
	atomicLoad := func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value { return w.load(args[0]) }
	atomicStore := func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		w.store(args[0], args[1])
		return nil
	}
	atomicAdd := func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		t := fn.Signature.Params().At(1).Type()
		v := w.binop(token.ADD, &cinstr{tk: tkOf(t), tk2: tkOf(t)}, t, w.load(args[0]), args[1])
		w.store(args[0], v)
		return v
	}
	atomicSwap := func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		v := w.load(args[0])
		w.store(args[0], args[1])
		return v
	}
	atomicCAS := func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		t := fn.Signature.Params().At(1).Type()
		if w.truth(w.eq(t, w.load(args[0]), args[1])) {
			w.store(args[0], args[2])
			return Conc(1)
		}
		return Conc(0)
	}
	for _, k := range strings.Fields("Int32 Int64 Uint32 Uint64 Uintptr Pointer") {
		def("sync/atomic.Load"+k, atomicLoad)
		def("sync/atomic.Store"+k, atomicStore)
		def("sync/atomic.Swap"+k, atomicSwap)
		def("sync/atomic.CompareAndSwap"+k, atomicCAS)
		if k != "Pointer" {
			def("sync/atomic.Add"+k, atomicAdd)
		}
	}
	// atomic.Value: the first field holds the interface
	def("(*sync/atomic.Value).Load", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return (*ptrKey(args[0])).(Struct)[0]
	})
	def("(*sync/atomic.Value).Store", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		(*ptrKey(args[0])).(Struct)[0] = args[1]
		return nil
	})

	// ---- runtime and unsafe helpers ----
	def("runtime.KeepAlive runtime.GC runtime.SetFinalizer runtime/debug.FreeOSMemory runtime.LockOSThread", nop)
	def("internal/abi.NoEscape internal/abi.Escape strings.noescape internal/stringslite.Clone strings.Clone bytes.noescape", first)
	def("(*strings.Builder).copyCheck", nop)
	def("internal/bytealg.MakeNoZero", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		n := int(w.concretizeV(args[0]))
		s := make(Slice, n)
		for i := range s {
			s[i] = Conc(0)
		}
		return s
	})
	def("internal/bytealg.Compare bytes.Compare", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return w.compareBytes(args[0].(Slice), args[1].(Slice))
	})
	def("internal/bytealg.CompareString strings.Compare cmp.compareString", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return w.compareBytes(strBytes(args[0]), strBytes(args[1]))
	})
	def("internal/bytealg.Equal bytes.Equal", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return norm(w.eqBytes(args[0].(Slice), args[1].(Slice)))
	})
	def("math.Float64bits math.Float64frombits math.Float32bits math.Float32frombits", first)
	def("math.Sqrt math.sqrt", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		c, ok := args[0].(Conc)
		if !ok {
			panic(unsupported{"symbolic sqrt"})
		}
		return Conc(math.Float64bits(math.Sqrt(math.Float64frombits(uint64(c)))))
	})
	for name, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc} {
		f := f
		def("math."+name+" math."+strings.ToLower(name), func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
			c, ok := args[0].(Conc)
			if !ok {
				return Value(w.fround(args[0].(*Expr), name))
			}
			return Conc(math.Float64bits(f(math.Float64frombits(uint64(c)))))
		})
	}
	def("(*internal/godebug.Setting).Value", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value { return "" })
	def("(*internal/godebug.Setting).IncNonDefault (*internal/godebug.Setting).Undocumented", nop)
	def("internal/godebug.New", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		p := new(Value)
		*p = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return p
	})
	def("time.Now", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		// a fixed instant without monotonic reading: wall = 0 ns, ext = seconds since year 1
		s := zero(fn.Signature.Results().At(0).Type()).(Struct)
		s[1] = Conc(63900000000)
		return s
	})
	def("reflect.DeepEqual", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return norm(w.deepEqual(args[0], args[1], 0))
	})

	// reflect.Value: the interface value, as the first field of the struct
	def("reflect.ValueOf", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		return Struct{args[0], (*Value)(nil), Conc(0)}
	})
	reflected := func(v Value) Iface {
		x, ok := v.(Struct)[0].(Iface)
		if !ok {
			return Iface{}
		}
		return x
	}
	def("(reflect.Value).IsValid", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		if reflected(args[0]).t == nil {
			return Conc(0)
		}
		return Conc(1)
	})
	def("(reflect.Value).Kind", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		x := reflected(args[0])
		if x.t == nil {
			return Conc(0)
		}
		switch u := x.t.Underlying().(type) {
		case *types.Basic:
			if k, ok := basicKinds[u.Kind()]; ok {
				return Conc(k)
			}
		case *types.Array:
			return Conc(17)
		case *types.Chan:
			return Conc(18)
		case *types.Signature:
			return Conc(19)
		case *types.Map:
			return Conc(21)
		case *types.Pointer:
			return Conc(22)
		case *types.Slice:
			return Conc(23)
		case *types.Struct:
			return Conc(25)
		}
		panic(unsupported{"reflect.Kind of " + x.t.String()})
	})
	def("(reflect.Value).IsNil", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		x := reflected(args[0])
		isNil := false
		switch v := x.v.(type) {
		case *Value:
			isNil = v == nil
		case *SymPtr:
		case Slice:
			isNil = v == nil
		case *Map:
			isNil = v == nil
		default:
			panic(unsupported{fmt.Sprintf("reflect IsNil of %T", v)})
		}
		if isNil {
			return Conc(1)
		}
		return Conc(0)
	})

	// ---- strconv ----
	fint := func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		base := 10
		if len(args) > 1 {
			base = int(w.concretizeV(args[1]))
		}
		if c, ok := args[0].(Conc); ok {
			return strconv.FormatInt(int64(c), base)
		}
		return w.formatInt(args[0].(*Expr), base)
	}
	def("strconv.FormatInt internal/strconv.FormatInt", fint)
	def("strconv.Itoa internal/strconv.Itoa", fint)
	def("strconv.FormatUint internal/strconv.FormatUint", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		base := int(w.concretizeV(args[1]))
		if c, ok := args[0].(Conc); ok {
			return strconv.FormatUint(uint64(c), base)
		}
		e := args[0].(*Expr)
		if !w.truth(norm(w.cx.Not(w.cx.Slt(e, w.cx.Const(64, 0))))) {
			panic(pathEnd{"cut", "FormatUint of a value above 2^63"})
		}
		return w.formatInt(e, base)
	})
	def("strconv.AppendInt internal/strconv.AppendInt", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		t := fint(w, caller, fn, args[1:])
		s, _ := args[0].(Slice)
		return Slice(append(append([]Value(nil), s...), strBytes(t)...))
	})
	ffloat := func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		f := byte(w.concretizeV(args[1]))
		prec := int(int64(w.concretizeV(args[2])))
		bits := int(w.concretizeV(args[3]))
		if e, ok := args[0].(*Expr); ok {
			if w.allPinned(e) {
				return strconv.FormatFloat(math.Float64frombits(w.cx.Eval(e)), f, prec, bits)
			}
			if f != 'g' || prec != -1 {
				// special values are exact; finite ones are an opaque text
				isnan, _, neg := w.cx.fparts(e)
				if w.truth(norm(isnan)) {
					return "NaN"
				}
				if w.truth(norm(w.cx.Eq(w.cx.Bin(OBvAnd, e, w.cx.Const(64, 1<<63-1)), w.cx.Const(64, 0x7ff0000000000000)))) {
					if w.truth(norm(neg)) {
						return "-Inf"
					}
					return "+Inf"
				}
				return w.opaque("FormatFloat")
			}
			src := e
			if bits == 32 && e.op == OFToF && e.a.w == 32 {
				src = e.a
			}
			return w.formatFloat(src, bits, e)
		}
		return strconv.FormatFloat(math.Float64frombits(uint64(args[0].(Conc))), f, prec, bits)
	}
	def("strconv.FormatFloat internal/strconv.FormatFloat", ffloat)
	def("strconv.AppendFloat internal/strconv.AppendFloat", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		t := ffloat(w, caller, fn, args[1:])
		s, _ := args[0].(Slice)
		return Slice(append(append([]Value(nil), s...), strBytes(t)...))
	})
	pint := func(w *Worker, s Value, base, bits int) (Value, bool) {
		if _, ok := s.(*Opaque); ok {
			// arbitrary outcome
			if w.truth(w.freshVar(0)) {
				return Tuple{w.freshVar(64), nilErr()}, true
			}
			return Tuple{Conc(0), w.numErr()}, true
		}
		if bits == 0 {
			bits = 64
		}
		b := strBytes(s)
		if _, ok := concBytes(b); ok {
			return nil, false // interpreted
		}
		m := w.parseMemo(b)
		if m == nil || base != 10 && base != 0 {
			return nil, false
		}
		if m.isF {
			if !m.pureInt {
				return Tuple{Conc(0), w.numErr()}, true
			}
			v := w.freshVar(64)
			f := w.cx.F(OSIToF, uint8(m.bits), v, nil)
			w.refine = append(w.refine, w.cx.Eq(f, m.val))
			return Tuple{v, nilErr()}, true
		}
		if bits < 64 {
			lo, hi := -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
			in := w.cx.And(w.cx.Sle(w.cx.Const(64, uint64(lo)), m.val), w.cx.Sle(m.val, w.cx.Const(64, uint64(hi))))
			if !w.truth(norm(in)) {
				r := hi
				if w.truth(norm(w.cx.Slt(m.val, w.cx.Const(64, 0)))) {
					r = lo
				}
				return Tuple{Conc(uint64(r)), w.mkErr("strconv: value out of range")}, true
			}
		}
		return Tuple{m.val, nilErr()}, true
	}
	soft("strconv.ParseInt internal/strconv.ParseInt", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		r, ok := pint(w, args[0], int(w.concretizeV(args[1])), int(w.concretizeV(args[2])))
		if !ok {
			return passThrough{}
		}
		return r
	})
	soft("strconv.Atoi internal/strconv.Atoi", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		r, ok := pint(w, args[0], 10, 64)
		if !ok {
			return passThrough{}
		}
		return r
	})
	def("strconv.ParseFloat internal/strconv.ParseFloat", func(w *Worker, caller *frame, fn *ssa.Function, args []Value) Value {
		bits := int(w.concretizeV(args[1]))
		if _, ok := args[0].(*Opaque); ok {
			if w.truth(w.freshVar(0)) {
				return Tuple{w.freshVar(64), nilErr()}
			}
			return Tuple{Conc(0), w.numErr()}
		}
		b := strBytes(args[0])
		if s, ok := concBytes(b); ok {
			f, err := strconv.ParseFloat(s, bits)
			if err != nil {
				return Tuple{Conc(math.Float64bits(f)), w.mkErr(err.Error())}
			}
			return Tuple{Conc(math.Float64bits(f)), nilErr()}
		}
		if m := w.parseMemo(b); m != nil && bits == 64 {
			if m.isF {
				v := m.val
				if v.w == 32 {
					// parsing a shortest 32-bit text at 64 bits gives a nearby double: unspecified here
					f := w.freshVar(64)
					w.refine = append(w.refine, w.cx.Eq(w.cx.F(OFToF, 32, f, nil), v))
					return Tuple{f, nilErr()}
				}
				return Tuple{v, nilErr()}
			}
			return Tuple{norm(w.cx.F(OSIToF, 64, m.val, nil)), nilErr()}
		}
		// validity is decided by the real scanner; the value is arbitrary
		rf := w.eng.fn("internal/strconv", "readFloat")
		ok := true
		if !w.isSpecialFloat(b) {
			t := w.callFn(caller, rf, []Value{args[0]}, nil).(Tuple)
			n := w.concretizeV(t[len(t)-2])
			ok = w.truth(t[len(t)-1]) && int(n) == len(b)
			if ok && !w.truth(t[4]) {
				// out of range above: the scanner says mantissa * 10^exp; in the narrow band either may be
				e := w.expr(t[1], 64)
				above := func(n uint64) bool { return w.truth(norm(w.cx.Slt(w.cx.Const(64, n), e))) }
				if above(288) && !w.truth(norm(w.cx.Eq(w.expr(t[0], 64), w.cx.Const(64, 0)))) && (above(308) || w.truth(w.freshVar(0))) {
					f := math.Inf(1)
					if w.truth(t[2]) {
						f = math.Inf(-1)
					}
					return Tuple{Conc(math.Float64bits(f)), w.mkErr("strconv: value out of range")}
				}
			}
		}
		if !ok {
			return Tuple{Conc(0), w.numErr()}
		}
		w.note("float value of symbolic text is arbitrary")
		f := w.freshVar(64)
		return Tuple{f, nilErr()}
	})
	if os.Getenv("GOSYM_DEBUG") == "2" {
		fmt.Fprintln(os.Stderr, len(intrinsics), "intrinsics")
	}
}

// isSpecialFloat: inf/nan texts with symbolic bytes are treated as not special unless they match exactly.
func (w *Worker) isSpecialFloat(b []Value) bool {
	for _, s := range []string{"inf", "+inf", "-inf", "nan", "infinity", "+infinity", "-infinity"} {
		if len(s) != len(b) {
			continue
		}
		r := w.cx.tru
		for i := range b {
			x := w.expr(b[i], 8)
			lo, up := uint64(s[i]), uint64(s[i])
			if s[i] >= 'a' {
				up = uint64(s[i] - 32)
			}
			r = w.cx.And(r, w.cx.Or(w.cx.Eq(x, w.cx.Const(8, lo)), w.cx.Eq(x, w.cx.Const(8, up))))
		}
		if w.truth(norm(r)) {
			return true
		}
	}
	return false
}

func (w *Worker) fround(e *Expr, name string) Value {
	panic(unsupported{"symbolic math." + name})
}

func (w *Worker) compareBytes(a, b []Value) Value {
	lt := w.bytesLess(a, b)
	eq := w.eqBytes(a, b)
	cx := w.cx
	return norm(cx.Ite(eq, cx.Const(64, 0), cx.Ite(lt, cx.Const(64, ^uint64(0)), cx.Const(64, 1))))
}

// sprintf formats when everything is concrete or only %s/%d/%v of simple values is involved.
func (w *Worker) sprintf(format, a Value) Value {
	f, ok := format.(string)
	if !ok {
		return w.opaque("Sprintf")
	}
	if g, ok := w.goArgs(a); ok {
		return fmt.Sprintf(f, g...)
	}
	args, _ := a.(Slice)
	var out Value = ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = strConcat(out, f[i:i+1])
			continue
		}
		i++
		if i >= len(f) {
			return w.opaque("Sprintf")
		}
		if f[i] == '%' {
			out = strConcat(out, "%")
			continue
		}
		if (f[i] != 's' && f[i] != 'd' && f[i] != 'v') || k >= len(args) {
			return w.opaque("Sprintf")
		}
		t, ok := w.textOf(args[k])
		k++
		if !ok {
			return w.opaque("Sprintf")
		}
		if _, isO := t.(*Opaque); isO {
			return w.opaque("Sprintf")
		}
		out = strConcat(out, t)
	}
	return out
}

// deepEqual mirrors reflect.DeepEqual.
func (w *Worker) deepEqual(a, b Value, depth int) *Expr {
	cx := w.cx
	if depth > 60 {
		panic(pathEnd{"cut", "DeepEqual depth"})
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return cx.fls
		}
		if x.t == nil || y.t == nil {
			return cx.Bool(x.t == nil && y.t == nil)
		}
		if !w.identical(x.t, y.t) {
			return cx.fls
		}
		return w.deepEqualT(x.t, x.v, y.v, depth+1)
	}
	panic(unsupported{fmt.Sprintf("DeepEqual of %T", a)})
}

func (w *Worker) deepEqualT(t types.Type, a, b Value, depth int) *Expr {
	cx := w.cx
	if depth > 60 {
		panic(pathEnd{"cut", "DeepEqual depth"})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return w.expr(w.eq(t, a, b), 0)
	case *types.Interface:
		return w.deepEqual(a, b, depth+1)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		r := cx.tru
		for i := range x {
			r = cx.And(r, w.deepEqualT(u.Field(i).Type(), x[i], y[i], depth+1))
			if r == cx.fls {
				break
			}
		}
		return r
	case *types.Array:
		x, y := a.(Arr), b.(Arr)
		r := cx.tru
		for i := range x {
			r = cx.And(r, w.deepEqualT(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return cx.fls
		}
		r := cx.tru
		for i := range x {
			r = cx.And(r, w.deepEqualT(u.Elem(), x[i], y[i], depth+1))
			if r == cx.fls {
				break
			}
		}
		return r
	case *types.Pointer:
		p, ok1 := a.(*Value)
		q, ok2 := b.(*Value)
		if !ok1 || !ok2 {
			panic(unsupported{"DeepEqual pointer"})
		}
		if p == q {
			return cx.tru
		}
		if p == nil || q == nil {
			return cx.fls
		}
		return w.deepEqualT(u.Elem(), *p, *q, depth+1)
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		if (x == nil) != (y == nil) {
			return cx.fls
		}
		if x == y {
			return cx.tru
		}
		if x.n != y.n {
			return cx.fls
		}
		r := cx.tru
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			f := w.mapFind(y, e.k)
			if f == nil {
				return cx.fls
			}
			r = cx.And(r, w.deepEqualT(u.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *types.Signature:
		c, ok := a.(*Closure)
		d, ok2 := b.(*Closure)
		return cx.Bool(ok && ok2 && c == nil && d == nil)
	case *types.Chan:
		return w.expr(w.eq(t, a, b), 0)
	}
	panic(unsupported{"DeepEqual of " + t.String()})
}

// ---- observation logs ----

func (w *Worker) renderLog() []string {
	out := make([]string, 0, len(w.log))
	for _, row := range w.log {
		var sb strings.Builder
		for i, v := range row.(Slice) {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(w.render(v))
		}
		out = append(out, sb.String())
	}
	return out
}

func (w *Worker) num(v Value) uint64 {
	switch x := v.(type) {
	case Conc:
		return uint64(x)
	case *Expr:
		return w.cx.Eval(x)
	}
	return 0
}

func (w *Worker) bytesOf(b []Value) []byte {
	o := make([]byte, len(b))
	for i, x := range b {
		o[i] = byte(w.num(x))
	}
	return o
}

func (w *Worker) render(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return "?"
	}
	if i.t == nil {
		return "nil"
	}
	if _, ok := i.t.(*types.Named); ok {
		return "?"
	}
	switch t := i.t.(type) {
	case *types.Basic:
		tk := tkOf(t)
		switch tk.kind {
		case kBool:
			return fmt.Sprint(w.num(i.v) != 0)
		case kInt:
			if tk.signed {
				return fmt.Sprint(int64(signExt(w.num(i.v), tk.w)))
			}
			return fmt.Sprint(w.num(i.v))
		case kFloat:
			x := w.num(i.v)
			if tk.w == 32 {
				if f := math.Float32frombits(uint32(x)); f != f {
					return "fNaN"
				}
				return fmt.Sprintf("f%08x", x)
			}
			if f := math.Float64frombits(x); f != f {
				return "fNaN"
			}
			return fmt.Sprintf("f%016x", x)
		case kString:
			switch s := i.v.(type) {
			case string:
				return fmt.Sprintf("%q", s)
			case *SymStr:
				return fmt.Sprintf("%q", string(w.bytesOf(s.b)))
			}
			return "?opaque"
		}
	case *types.Slice:
		if tkOf(t.Elem()).w == 8 && tkOf(t.Elem()).kind == kInt && !tkOf(t.Elem()).signed {
			return fmt.Sprintf("x%x", w.bytesOf(i.v.(Slice)))
		}
	}
	return "?"
}

var basicKinds = map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8,
	types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.String: 24}
