package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct{ v Value } // Go panic in the interpreted program
type pathEnd struct {              // end of the current path
	kind string
	msg  string
}
type unsupported struct{ msg string }

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
}

type frame struct {
	fi       *FnInfo
	regs     []Value
	defers   []deferred
	block    int
	prev     int
	result   Value
	panicv   *targetPanic
	caller   *frame
	depth    int
	recoverd bool
}

func (w *Worker) get(f *frame, o *opnd) Value {
	switch o.kind {
	case okReg:
		return f.regs[o.reg]
	case okVal:
		if isAgg(o.v) {
			return copyVal(o.v)
		}
		return o.v
	case okGlobal:
		return w.globalAddr(o.g)
	}
	panic(unsupported{"operand in " + f.fi.name})
}

func (w *Worker) rtPanic(msg string) targetPanic {
	return targetPanic{Iface{w.eng.rtErrType, Struct{"runtime error: " + msg}}}
}

// call invokes a function value.
func (w *Worker) call(caller *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return w.callFn(caller, f, args, nil)
	case *Closure:
		if f == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return w.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		panic(unsupported{"builtin value call " + f.Name()})
	}
	panic(fmt.Sprintf("call %T", fn))
}

func (w *Worker) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := w.fnCache[fn]
	if fi == nil {
		fi = getFn(fn)
		w.fnCache[fn] = fi
	}
	w.touched[fi]++
	if fi.intr != nil {
		r := fi.intr(w, caller, fn, args)
		if _, pass := r.(passThrough); !pass {
			return r
		}
	}
	if fi.model != nil {
		return w.callFn(caller, fi.model, args, env)
	}
	if fi.blocks == nil {
		panic(unsupported{"no body for " + fi.name})
	}
	if fn.Synthetic == "package initializer" {
		return nil // packages are initialised lazily
	}
	f := &frame{fi: fi, caller: caller, regs: make([]Value, fi.nregs)}
	if caller != nil {
		f.depth = caller.depth + 1
		if f.depth > w.maxDepth {
			panic(pathEnd{"depth", "call depth bound"})
		}
	}
	n := copy(f.regs, args)
	copy(f.regs[n:], env)
	if fi.hasDefer {
		w.runDeferFrame(f)
	} else {
		w.run(f)
	}
	return f.result
}

func (w *Worker) runDeferFrame(f *frame) {
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			f.panicv = &tp
			w.runDefers(f)
			if f.panicv != nil {
				panic(*f.panicv)
			}
			// recovered
			f.recoverd = true
		}()
		w.run(f)
	}()
	if f.recoverd {
		if f.fi.recoverBl >= 0 {
			f.block = f.fi.recoverBl
			f.prev = -1
			w.run(f)
		} else {
			f.result = zero(f.fi.fn.Signature.Results())
		}
	}
}

func (w *Worker) runDefers(f *frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					f.panicv = &tp
				}
			}()
			w.doCall(f, d.fn, d.args, nil)
		}()
	}
}

// doCall dispatches builtins and functions.
func (w *Worker) doCall(f *frame, fn Value, args []Value, c *ssa.CallCommon) Value {
	if b, ok := fn.(*ssa.Builtin); ok {
		return w.builtin(f, b, args, c)
	}
	return w.call(f, fn, args)
}

func (w *Worker) prepare(f *frame, ci *cinstr, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		recv := w.get(f, &ci.ops[0])
		itf, ok := recv.(Iface)
		if !ok {
			panic(fmt.Sprintf("invoke on %T in %s", recv, f.fi.name))
		}
		if itf.t == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		m := w.method(itf.t, c.Method)
		args := make([]Value, 0, len(ci.ops))
		args = append(args, itf.v)
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, w.get(f, &ci.ops[i]))
		}
		return m, args
	}
	fn := w.get(f, &ci.ops[0])
	args := make([]Value, 0, len(ci.ops))
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, w.get(f, &ci.ops[i]))
	}
	return fn, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.meths[k]; ok {
		return f
	}
	buildMu.Lock()
	f := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	buildMu.Unlock()
	if f == nil {
		panic(unsupported{"no method " + m.Name() + " on " + t.String()})
	}
	w.meths[k] = f
	return f
}

// truth turns a boolean value into a Go bool, branching if needed.
func (w *Worker) truth(v Value) bool {
	switch x := v.(type) {
	case Conc:
		return x != 0
	case *Expr:
		return w.branch(x)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

func (w *Worker) run(f *frame) {
	fi := f.fi
	for {
		cb := &fi.blocks[f.block]
		ins := cb.ins
		// phis in parallel
		if cb.nphi > 0 && f.prev >= 0 {
			pi := -1
			for i, p := range cb.b.Preds {
				if p.Index == f.prev {
					pi = i
					break
				}
			}
			if cb.nphi == 1 {
				f.regs[ins[0].dst] = w.get(f, &ins[0].ops[pi])
			} else {
				var tmp [8]Value
				t := tmp[:0]
				for i := 0; i < cb.nphi; i++ {
					t = append(t, w.get(f, &ins[i].ops[pi]))
				}
				for i := 0; i < cb.nphi; i++ {
					f.regs[ins[i].dst] = t[i]
				}
			}
		}
		w.fuel -= len(ins)
		if w.fuel < 0 {
			panic(pathEnd{"fuel", "instruction bound in " + fi.name})
		}
		next := -1
	instrs:
		for i := cb.nphi; i < len(ins); i++ {
			ci := &ins[i]
			switch in := ci.in.(type) {
			case *ssa.If:
				c := w.get(f, &ci.ops[0])
				switch x := c.(type) {
				case Conc:
					if x != 0 {
						next = cb.b.Succs[0].Index
					} else {
						next = cb.b.Succs[1].Index
					}
				case *Expr:
					if w.eng.merge {
						done, ret := w.region(f, cb, x)
						if ret {
							return
						}
						if done {
							// region set f.block and phis
							next = -2
							break
						}
					}
					if w.branch(x) {
						next = cb.b.Succs[0].Index
					} else {
						next = cb.b.Succs[1].Index
					}
				}
				break instrs
			case *ssa.Jump:
				next = cb.b.Succs[0].Index
				break instrs
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					f.result = w.get(f, &ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = w.get(f, &ci.ops[k])
					}
					f.result = t
				}
				return
			case *ssa.RunDefers:
				w.runDefers(f)
				if f.panicv != nil {
					p := *f.panicv
					panic(p)
				}
			case *ssa.Panic:
				panic(targetPanic{w.get(f, &ci.ops[0])})
			default:
				w.exec(f, ci, in)
			}
		}
		if next == -2 {
			continue
		}
		f.prev = f.block
		f.block = next
	}
}

func (w *Worker) exec(f *frame, ci *cinstr, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.Call:
		fn, args := w.prepare(f, ci, &in.Call)
		f.regs[ci.dst] = w.doCall(f, fn, args, &in.Call)
	case *ssa.BinOp:
		f.regs[ci.dst] = w.binop(in.Op, ci, in.X.Type(), w.get(f, &ci.ops[0]), w.get(f, &ci.ops[1]))
	case *ssa.UnOp:
		f.regs[ci.dst] = w.unop(f, in, ci)
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		f.regs[ci.dst] = p
	case *ssa.Store:
		w.store(w.get(f, &ci.ops[0]), w.get(f, &ci.ops[1]))
	case *ssa.FieldAddr:
		p := w.get(f, &ci.ops[0])
		switch q := p.(type) {
		case *Value:
			if q == nil {
				panic(w.rtPanic("invalid memory address or nil pointer dereference"))
			}
			s, ok := (*q).(Struct)
			if !ok {
				panic(unsupported{fmt.Sprintf("FieldAddr on %T in %s", *q, f.fi.name)})
			}
			f.regs[ci.dst] = &s[in.Field]
		case *SymPtr:
			i := w.concretize(q.idx)
			s := q.elems[i].(Struct)
			f.regs[ci.dst] = &s[in.Field]
		default:
			panic(unsupported{fmt.Sprintf("FieldAddr %T", p)})
		}
	case *ssa.Field:
		f.regs[ci.dst] = copyVal(w.get(f, &ci.ops[0]).(Struct)[in.Field])
	case *ssa.IndexAddr:
		f.regs[ci.dst] = w.indexAddr(f, in, ci)
	case *ssa.Index:
		x := w.get(f, &ci.ops[0])
		i := w.get(f, &ci.ops[1])
		switch a := x.(type) {
		case Arr:
			f.regs[ci.dst] = w.load(w.elemAddr(a, i, tkOf(in.Index.Type())))
		default:
			f.regs[ci.dst] = w.strIndex(x, i, tkOf(in.Index.Type()))
		}
	case *ssa.Lookup:
		x := w.get(f, &ci.ops[0])
		k := w.get(f, &ci.ops[1])
		if m, ok := x.(*Map); ok {
			e := w.mapFind(m, k)
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				f.regs[ci.dst] = Tuple{v, Conc(b2u(e != nil))}
			} else {
				f.regs[ci.dst] = v
			}
		} else {
			f.regs[ci.dst] = w.strIndex(x, k, tkOf(in.Index.Type()))
		}
	case *ssa.Convert:
		f.regs[ci.dst] = w.convert(f, in.X.Type(), in.Type(), ci, w.get(f, &ci.ops[0]))
	case *ssa.MultiConvert:
		ci2 := &cinstr{tk: tkOf(in.X.Type()), tk2: tkOf(in.Type())}
		f.regs[ci.dst] = w.convert(f, in.X.Type(), in.Type(), ci2, w.get(f, &ci.ops[0]))
	case *ssa.ChangeType:
		f.regs[ci.dst] = w.get(f, &ci.ops[0])
	case *ssa.ChangeInterface:
		f.regs[ci.dst] = w.get(f, &ci.ops[0])
	case *ssa.MakeInterface:
		f.regs[ci.dst] = Iface{in.X.Type(), w.get(f, &ci.ops[0])}
	case *ssa.Extract:
		f.regs[ci.dst] = w.get(f, &ci.ops[0]).(Tuple)[in.Index]
	case *ssa.Slice:
		f.regs[ci.dst] = w.slice(f, in, ci)
	case *ssa.MakeSlice:
		f.regs[ci.dst] = w.makeSlice(f, in, ci)
	case *ssa.MakeMap:
		f.regs[ci.dst] = newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.MapUpdate:
		m, _ := w.get(f, &ci.ops[0]).(*Map)
		w.mapSet(m, w.get(f, &ci.ops[1]), w.get(f, &ci.ops[2]))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = w.get(f, &ci.ops[i+1])
		}
		f.regs[ci.dst] = &Closure{in.Fn.(*ssa.Function), env}
	case *ssa.MakeChan:
		n := w.concretizeV(w.get(f, &ci.ops[0]))
		f.regs[ci.dst] = &Chan{cap: int(n)}
	case *ssa.Send:
		w.chanSend(w.get(f, &ci.ops[0]).(*Chan), w.get(f, &ci.ops[1]))
	case *ssa.Range:
		x := w.get(f, &ci.ops[0])
		switch m := x.(type) {
		case *Map:
			it := &RangeIter{m: m}
			if m != nil {
				it.ents = append(it.ents, m.ents...)
			}
			f.regs[ci.dst] = it
		default:
			f.regs[ci.dst] = &RangeIter{s: x}
		}
	case *ssa.Next:
		f.regs[ci.dst] = w.next(f, in, w.get(f, &ci.ops[0]).(*RangeIter))
	case *ssa.TypeAssert:
		f.regs[ci.dst] = w.typeAssert(in, w.get(f, &ci.ops[0]))
	case *ssa.Go:
		fn, args := w.prepare(f, ci, &in.Call)
		w.spawn(fn, args, &in.Call)
	case *ssa.Defer:
		fn, args := w.prepare(f, ci, &in.Call)
		n := len(in.Call.Args) // (a Defer has one operand more, its stack)
		if in.Call.IsInvoke() {
			n++
		}
		args = args[:n]
		f.defers = append(f.defers, deferred{fn, args, in})
	case *ssa.Select:
		f.regs[ci.dst] = w.selectStmt(f, in, ci)
	case *ssa.SliceToArrayPointer:
		s := w.get(f, &ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			panic(w.rtPanic("cannot convert slice to array pointer"))
		}
		p := new(Value)
		*p = Arr(s[:n:n])
		f.regs[ci.dst] = p
	default:
		panic(unsupported{fmt.Sprintf("instruction %T in %s", instr, f.fi.name)})
	}
}

func (w *Worker) load(p Value) Value {
	switch q := p.(type) {
	case *Value:
		if q == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		v := *q
		if isAgg(v) {
			return copyVal(v)
		}
		return v
	case *SymPtr:
		return w.symLoad(q)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (w *Worker) symLoad(q *SymPtr) Value {
	// all scalar elements of one width: ite chain over distinct values
	cx := w.cx
	width := -1
	ok := len(q.elems) <= 512
	if ok {
		for _, e := range q.elems {
			switch x := e.(type) {
			case Conc:
			case *Expr:
				if width >= 0 && width != int(x.w) {
					ok = false
				}
				width = int(x.w)
			default:
				ok = false
			}
			if !ok {
				break
			}
		}
	}
	if ok && width < 0 {
		width = 64 // concrete table: the consumer's width is unknown here, see fixWidth
	}
	if !ok {
		i := w.concretize(q.idx)
		return copyVal(q.elems[i])
	}
	toE := func(v Value) *Expr {
		if c, ok := v.(Conc); ok {
			return cx.Const(uint8(width), uint64(c))
		}
		return v.(*Expr)
	}
	// most common value is the default
	cnt := map[*Expr]int{}
	var best *Expr
	es := make([]*Expr, len(q.elems))
	for i, e := range q.elems {
		es[i] = toE(e)
		cnt[es[i]]++
		if best == nil || cnt[es[i]] > cnt[best] {
			best = es[i]
		}
	}
	r := best
	for i := len(es) - 1; i >= 0; {
		if es[i] == best {
			i--
			continue
		}
		j := i
		for j > 0 && es[j-1] == es[i] {
			j--
		}
		var c *Expr
		iw := q.idx.w
		if j == i {
			c = cx.Eq(q.idx, cx.Const(iw, uint64(i)))
		} else {
			c = cx.And(cx.Ule(cx.Const(iw, uint64(j)), q.idx), cx.Ule(q.idx, cx.Const(iw, uint64(i))))
		}
		r = cx.Ite(c, es[i], r)
		i = j - 1
	}
	return r
}

// fixWidth adapts a table lookup of concrete entries (built at width 64) to its real width.
func (w *Worker) fixWidth(v Value, tk TK) Value {
	e, ok := v.(*Expr)
	if !ok {
		return v
	}
	switch tk.kind {
	case kBool:
		if e.w != 0 {
			return norm(w.cx.Not(w.cx.Eq(e, w.cx.Const(e.w, 0))))
		}
	case kInt, kFloat:
		if e.w > tk.w {
			return norm(w.iteExtract(e, tk.w))
		}
	}
	return norm(e)
}

func (w *Worker) iteExtract(e *Expr, n uint8) *Expr {
	if e.op == OIte {
		return w.cx.Ite(e.a, w.iteExtract(e.b, n), w.iteExtract(e.c, n))
	}
	return w.cx.Extract(e, n-1, 0)
}

func (w *Worker) store(p, v Value) {
	switch q := p.(type) {
	case *Value:
		if q == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		storeTo(q, v)
		return
	case *SymPtr:
		ok := len(q.elems) <= 64
		var width uint8
		switch x := v.(type) {
		case *Expr:
			width = x.w
		case Conc:
			ok = false
			for _, e := range q.elems {
				if x, is := e.(*Expr); is {
					width = x.w
					ok = len(q.elems) <= 64
				}
			}
		default:
			ok = false
		}
		if ok {
			for _, e := range q.elems {
				switch e.(type) {
				case Conc, *Expr:
				default:
					ok = false
				}
			}
		}
		if !ok {
			i := w.concretize(q.idx)
			storeTo(&q.elems[i], v)
			return
		}
		for i := range q.elems {
			c := w.cx.Eq(q.idx, w.cx.Const(q.idx.w, uint64(i)))
			q.elems[i] = norm(w.cx.Ite(c, w.expr(v, width), w.expr(q.elems[i], width)))
		}
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

// norm converts constant expressions to Conc.
func norm(e *Expr) Value {
	if e.op == OConst {
		return Conc(e.val)
	}
	return e
}

func (w *Worker) expr(v Value, width uint8) *Expr {
	switch x := v.(type) {
	case Conc:
		return w.cx.Const(width, uint64(x))
	case *Expr:
		if x.w != width {
			panic(fmt.Sprintf("width mismatch %d %d", x.w, width))
		}
		return x
	}
	panic(fmt.Sprintf("expr of %T", v))
}

func (w *Worker) concretizeV(v Value) uint64 {
	switch x := v.(type) {
	case Conc:
		return uint64(x)
	case *Expr:
		return w.concretize(x)
	}
	panic(fmt.Sprintf("concretize %T", v))
}

// index checks 0 <= i < n and returns a concrete index, or -1 and the symbolic index.
func (w *Worker) index(i Value, tk TK, n int) (int, *Expr) {
	switch x := i.(type) {
	case Conc:
		v := int64(signExt(uint64(x), max(tk.w, 1)))
		if !tk.signed {
			v = int64(x)
		}
		if v < 0 || v >= int64(n) {
			panic(w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", v, n)))
		}
		return int(v), nil
	case *Expr:
		e := x
		if tk.signed {
			e = w.cx.Sext(x, 64)
		} else {
			e = w.cx.Zext(x, 64)
		}
		in := w.cx.Ult(e, w.cx.Const(64, uint64(n)))
		if !w.truth(norm(in)) {
			panic(w.rtPanic(fmt.Sprintf("index out of range with length %d", n)))
		}
		if e.op == OConst {
			return int(e.val), nil
		}
		if n == 1 {
			return 0, nil
		}
		return -1, e
	}
	panic(fmt.Sprintf("index %T", i))
}

func (w *Worker) elemAddr(a []Value, i Value, tk TK) Value {
	k, e := w.index(i, tk, len(a))
	if e == nil {
		return &a[k]
	}
	return &SymPtr{a, e}
}

func (w *Worker) indexAddr(f *frame, in *ssa.IndexAddr, ci *cinstr) Value {
	x := w.get(f, &ci.ops[0])
	i := w.get(f, &ci.ops[1])
	tk := tkOf(in.Index.Type())
	switch a := x.(type) {
	case Slice:
		if c, ok := i.(Conc); ok && uint64(c) < uint64(len(a)) {
			return &a[c]
		}
		return w.elemAddr(a, i, tk)
	case *Value:
		if a == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		arr, ok := (*a).(Arr)
		if !ok {
			panic(unsupported{fmt.Sprintf("IndexAddr on *%T", *a)})
		}
		if c, ok := i.(Conc); ok && uint64(c) < uint64(len(arr)) {
			return &arr[c]
		}
		return w.elemAddr(arr, i, tk)
	}
	panic(unsupported{fmt.Sprintf("IndexAddr %T", x)})
}

func (w *Worker) strIndex(s, i Value, tk TK) Value {
	if c, ok := i.(Conc); ok {
		if str, ok := s.(string); ok && uint64(c) < uint64(len(str)) {
			return Conc(str[c])
		}
	}
	k, e := w.index(i, tk, strLen(s))
	if e == nil {
		if str, ok := s.(string); ok {
			return Conc(str[k])
		}
		return strBytes(s)[k]
	}
	return w.fixWidth(w.symLoad(&SymPtr{strBytes(s), e}), TK{kInt, 8, false})
}

func (w *Worker) unop(f *frame, in *ssa.UnOp, ci *cinstr) Value {
	x := w.get(f, &ci.ops[0])
	switch in.Op {
	case token.MUL:
		v := w.load(x)
		if _, ok := x.(*SymPtr); ok {
			v = w.fixWidth(v, tkOf(in.Type()))
		}
		return v
	case token.NOT:
		switch b := x.(type) {
		case Conc:
			return b ^ 1
		case *Expr:
			return norm(w.cx.Not(b))
		}
	case token.SUB:
		switch ci.tk.kind {
		case kInt:
			switch b := x.(type) {
			case Conc:
				return Conc(-uint64(b) & mask(ci.tk.w))
			case *Expr:
				return norm(w.cx.BvNeg(b))
			}
		case kFloat:
			sign := uint64(1) << (ci.tk.w - 1)
			switch b := x.(type) {
			case Conc:
				return b ^ Conc(sign)
			case *Expr:
				return norm(w.cx.Bin(OBvXor, b, w.cx.Const(b.w, sign)))
			}
		}
	case token.XOR:
		switch b := x.(type) {
		case Conc:
			return Conc(^uint64(b) & mask(ci.tk.w))
		case *Expr:
			return norm(w.cx.BvNot(b))
		}
	case token.ARROW:
		v, ok := w.chanRecv(x.(*Chan), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, Conc(b2u(ok))}
		}
		return v
	}
	panic(unsupported{fmt.Sprintf("unop %v on %T", in.Op, x)})
}

var intOps = map[token.Token]Op{token.ADD: OBvAdd, token.SUB: OBvSub, token.MUL: OBvMul, token.AND: OBvAnd, token.OR: OBvOr, token.XOR: OBvXor}

func (w *Worker) binop(op token.Token, ci *cinstr, t types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return w.eq(t, x, y)
	case token.NEQ:
		switch b := w.eq(t, x, y).(type) {
		case Conc:
			return b ^ 1
		case *Expr:
			return norm(w.cx.Not(b))
		}
	}
	cx := w.cx
	tk := ci.tk
	switch tk.kind {
	case kInt:
		cxv, okx := x.(Conc)
		cyv, oky := y.(Conc)
		switch op {
		case token.SHL, token.SHR:
			return w.shift(op, tk, ci.tk2, x, y)
		case token.QUO, token.REM:
			if oky {
				if cyv == 0 {
					panic(w.rtPanic("integer divide by zero"))
				}
			} else if w.truth(norm(cx.Eq(y.(*Expr), cx.Const(tk.w, 0)))) {
				panic(w.rtPanic("integer divide by zero"))
			}
			var o Op
			switch {
			case op == token.QUO && tk.signed:
				o = OBvSdiv
			case op == token.QUO:
				o = OBvUdiv
			case tk.signed:
				o = OBvSrem
			default:
				o = OBvUrem
			}
			if okx && oky {
				return Conc(evalBin(o, tk.w, uint64(cxv), uint64(cyv)))
			}
			return norm(cx.Bin(o, w.expr(x, tk.w), w.expr(y, tk.w)))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if okx && oky {
				if tk.signed {
					a, b := int64(signExt(uint64(cxv), tk.w)), int64(signExt(uint64(cyv), tk.w))
					switch op {
					case token.LSS:
						return Conc(b2u(a < b))
					case token.LEQ:
						return Conc(b2u(a <= b))
					case token.GTR:
						return Conc(b2u(a > b))
					default:
						return Conc(b2u(a >= b))
					}
				}
				a, b := cxv, cyv
				switch op {
				case token.LSS:
					return Conc(b2u(a < b))
				case token.LEQ:
					return Conc(b2u(a <= b))
				case token.GTR:
					return Conc(b2u(a > b))
				default:
					return Conc(b2u(a >= b))
				}
			}
			a, b := w.expr(x, tk.w), w.expr(y, tk.w)
			lt := cx.Ult
			if tk.signed {
				lt = cx.Slt
			}
			switch op {
			case token.LSS:
				return norm(lt(a, b))
			case token.LEQ:
				return norm(cx.Not(lt(b, a)))
			case token.GTR:
				return norm(lt(b, a))
			default:
				return norm(cx.Not(lt(a, b)))
			}
		case token.AND_NOT:
			if okx && oky {
				return cxv &^ cyv
			}
			return norm(cx.Bin(OBvAnd, w.expr(x, tk.w), cx.BvNot(w.expr(y, tk.w))))
		}
		o := intOps[op]
		if okx && oky {
			return Conc(evalBin(o, tk.w, uint64(cxv), uint64(cyv)))
		}
		return norm(cx.Bin(o, w.expr(x, tk.w), w.expr(y, tk.w)))
	case kBool:
		a, b := w.expr(x, 0), w.expr(y, 0)
		switch op {
		case token.AND:
			return norm(cx.And(a, b))
		case token.OR:
			return norm(cx.Or(a, b))
		}
	case kFloat:
		a, b := w.expr(x, tk.w), w.expr(y, tk.w)
		switch op {
		case token.LSS:
			return norm(cx.FLt(a, b))
		case token.GTR:
			return norm(cx.FLt(b, a))
		case token.LEQ:
			return norm(cx.Or(cx.FLt(a, b), cx.FEq(a, b)))
		case token.GEQ:
			return norm(cx.Or(cx.FLt(b, a), cx.FEq(a, b)))
		case token.ADD:
			return norm(cx.F(OFAdd, tk.w, a, b))
		case token.SUB:
			return norm(cx.F(OFSub, tk.w, a, b))
		case token.MUL:
			return norm(cx.F(OFMul, tk.w, a, b))
		case token.QUO:
			return norm(cx.F(OFDiv, tk.w, a, b))
		}
	case kString:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return w.notV(w.strLess(y, x))
		case token.GEQ:
			return w.notV(w.strLess(x, y))
		}
	}
	panic(unsupported{fmt.Sprintf("binop %v on %v", op, t)})
}

func (w *Worker) notV(v Value) Value {
	switch b := v.(type) {
	case Conc:
		return b ^ 1
	case *Expr:
		return norm(w.cx.Not(b))
	}
	panic("notV")
}

func (w *Worker) strLess(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return Conc(b2u(a < b))
		}
	}
	return norm(w.bytesLess(strBytes(x), strBytes(y)))
}

func (w *Worker) bytesLess(a, b []Value) *Expr {
	cx := w.cx
	n := min(len(a), len(b))
	r := cx.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		p, q := w.expr(a[i], 8), w.expr(b[i], 8)
		r = cx.Or(cx.Ult(p, q), cx.And(cx.Eq(p, q), r))
	}
	return r
}

func (w *Worker) shift(op token.Token, tk, tky TK, x, y Value) Value {
	cx := w.cx
	cyv, oky := y.(Conc)
	if tky.signed {
		neg := false
		if oky {
			neg = int64(signExt(uint64(cyv), tky.w)) < 0
		} else {
			e := y.(*Expr)
			neg = w.truth(norm(cx.Slt(e, cx.Const(e.w, 0))))
		}
		if neg {
			panic(w.rtPanic("negative shift amount"))
		}
	}
	var o Op
	switch {
	case op == token.SHL:
		o = OBvShl
	case tk.signed:
		o = OBvAshr
	default:
		o = OBvLshr
	}
	if oky {
		s := uint64(cyv)
		if s > uint64(tk.w) {
			s = uint64(tk.w)
		}
		if c, ok := x.(Conc); ok {
			return Conc(evalBin(o, tk.w, uint64(c), s))
		}
		return norm(cx.Bin(o, x.(*Expr), cx.Const(tk.w, s&mask(tk.w))))
	}
	e := y.(*Expr)
	if e.w > tk.w {
		big := cx.Ule(cx.Const(e.w, uint64(tk.w)), e)
		e = cx.Ite(big, cx.Const(tk.w, uint64(tk.w)), cx.Extract(e, tk.w-1, 0))
	} else {
		e = cx.Zext(e, tk.w)
	}
	return norm(cx.Bin(o, w.expr(x, tk.w), e))
}

// eq compares two values of static type t.
func (w *Worker) eq(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case Conc:
		if b, ok := y.(Conc); ok {
			if tk := tkOf(t); tk.kind == kFloat {
				return norm(w.cx.FEq(w.cx.Const(tk.w, uint64(a)), w.cx.Const(tk.w, uint64(b))))
			}
			return Conc(b2u(a == b))
		}
		return w.eqScalar(t, x, y)
	case *Expr:
		return w.eqScalar(t, x, y)
	case string:
		if b, ok := y.(string); ok {
			return Conc(b2u(a == b))
		}
		return w.eqStr(x, y)
	case *SymStr, *Opaque:
		return w.eqStr(x, y)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := w.cx.tru
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.cx.And(r, w.expr(w.eq(st.Field(i).Type(), a[i], b[i]), 0))
		}
		return norm(r)
	case Arr:
		b := y.(Arr)
		et := t.Underlying().(*types.Array).Elem()
		r := w.cx.tru
		for i := range a {
			r = w.cx.And(r, w.expr(w.eq(et, a[i], b[i]), 0))
		}
		return norm(r)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("interface compared with %T", y)})
		}
		if a.t == nil || b.t == nil {
			return Conc(b2u(a.t == nil && b.t == nil))
		}
		if !w.identical(a.t, b.t) {
			return Conc(0)
		}
		if !types.Comparable(a.t) {
			panic(w.rtPanic("comparing uncomparable type " + a.t.String()))
		}
		return w.eq(a.t, a.v, b.v)
	case *Value:
		if b, ok := y.(*Value); ok {
			return Conc(b2u(a == b))
		}
		return Conc(0)
	case Slice:
		b, ok := y.(Slice)
		if ok && (a == nil || b == nil) {
			return Conc(b2u(a == nil && b == nil))
		}
	case *Map:
		b, _ := y.(*Map)
		return Conc(b2u(a == b))
	case *Chan:
		b, _ := y.(*Chan)
		return Conc(b2u(a == b))
	case *Closure:
		if b, ok := y.(*Closure); ok {
			return Conc(b2u(a == b))
		}
		return Conc(0)
	case *ssa.Function:
		if b, ok := y.(*Closure); ok && b == nil {
			return Conc(0)
		}
	case nil:
		return Conc(b2u(y == nil))
	}
	panic(unsupported{fmt.Sprintf("equality of %T and %T (%v)", x, y, t)})
}

func (w *Worker) identical(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

func (w *Worker) eqScalar(t types.Type, x, y Value) Value {
	tk := tkOf(t)
	switch tk.kind {
	case kBool:
		return norm(w.cx.Eq(w.expr(x, 0), w.expr(y, 0)))
	case kFloat:
		return norm(w.cx.FEq(w.expr(x, tk.w), w.expr(y, tk.w)))
	case kInt:
		return norm(w.cx.Eq(w.expr(x, tk.w), w.expr(y, tk.w)))
	}
	panic(unsupported{fmt.Sprintf("eqScalar %v", t)})
}

func (w *Worker) eqStr(x, y Value) Value {
	if o, ok := x.(*Opaque); ok {
		if p, ok := y.(*Opaque); ok && o == p {
			return Conc(1)
		}
	}
	if strLen(x) != strLen(y) {
		return Conc(0)
	}
	return norm(w.eqBytes(strBytes(x), strBytes(y)))
}

func (w *Worker) eqBytes(a, b []Value) *Expr {
	if len(a) != len(b) {
		return w.cx.fls
	}
	r := w.cx.tru
	for i := range a {
		r = w.cx.And(r, w.cx.Eq(w.expr(a[i], 8), w.expr(b[i], 8)))
		if r == w.cx.fls {
			break
		}
	}
	return r
}

func (w *Worker) convert(f *frame, from, to types.Type, ci *cinstr, x Value) Value {
	cx := w.cx
	a, b := ci.tk, ci.tk2
	ut := to.Underlying()
	switch {
	case a.kind == kInt && b.kind == kInt:
		if c, ok := x.(Conc); ok {
			v := uint64(c)
			if a.signed {
				v = signExt(v, a.w)
			}
			return Conc(v & mask(b.w))
		}
		e := x.(*Expr)
		switch {
		case b.w == a.w:
			return e
		case b.w < a.w:
			return norm(cx.Extract(e, b.w-1, 0))
		case a.signed:
			return norm(cx.Sext(e, b.w))
		default:
			return norm(cx.Zext(e, b.w))
		}
	case a.kind == kInt && b.kind == kFloat:
		e := w.expr(x, a.w)
		o := OUIToF
		if a.signed {
			o = OSIToF
		}
		return norm(cx.F(o, b.w, e, nil))
	case a.kind == kFloat && b.kind == kInt:
		return w.floatToInt(x, a, b)
	case a.kind == kFloat && b.kind == kFloat:
		if a.w == b.w {
			return x
		}
		return norm(cx.F(OFToF, b.w, w.expr(x, a.w), nil))
	case a.kind == kInt && b.kind == kString:
		// string(rune)
		c64 := w.convert(f, from, types.Typ[types.Int64], &cinstr{tk: a, tk2: TK{kInt, 64, true}}, x)
		if c, ok := c64.(Conc); ok {
			r := rune(int32(c))
			if int64(c) != int64(r) {
				r = 0xFFFD
			}
			return string(r)
		}
		e := c64.(*Expr)
		inr := cx.Ult(e, cx.Const(64, 0x110000))
		if !w.truth(norm(inr)) {
			return string(rune(0xFFFD))
		}
		fn := w.eng.fn("unicode/utf8", "AppendRune")
		s := w.callFn(f, fn, []Value{Slice(nil), norm(cx.Extract(e, 31, 0))}, nil).(Slice)
		return mkStr(append([]Value(nil), s...))
	case b.kind == kString:
		if sl, ok := from.Underlying().(*types.Slice); ok {
			s := x.(Slice)
			if tkOf(sl.Elem()).w == 8 {
				return mkStr(append([]Value(nil), s...))
			}
			// []rune
			var out []Value
			fn := w.eng.fn("unicode/utf8", "AppendRune")
			for _, r := range s {
				o := w.callFn(f, fn, []Value{Slice(nil), r}, nil).(Slice)
				out = append(out, o...)
			}
			return mkStr(out)
		}
		if a.kind == kString {
			return x
		}
	case a.kind == kString:
		if sl, ok := ut.(*types.Slice); ok {
			if tkOf(sl.Elem()).w == 8 {
				bs := strBytes(x)
				r := make(Slice, len(bs))
				copy(r, bs)
				return r
			}
			fn := w.eng.fn("unicode/utf8", "DecodeRuneInString")
			r := Slice{}
			for strLen(x) > 0 {
				t := w.callFn(f, fn, []Value{x}, nil).(Tuple)
				r = append(r, t[0])
				x = strSlice(x, int(w.concretizeV(t[1])), strLen(x))
			}
			return r
		}
	case a.kind == kUnsafe || b.kind == kUnsafe:
		return x
	}
	if _, ok := ut.(*types.Pointer); ok {
		return x
	}
	panic(unsupported{fmt.Sprintf("convert %v -> %v", from, to)})
}

func (w *Worker) floatToInt(x Value, a, b TK) Value {
	cx := w.cx
	if c, ok := x.(Conc); ok {
		var v float64
		if a.w == 32 {
			v = float64(math.Float32frombits(uint32(c)))
		} else {
			v = math.Float64frombits(uint64(c))
		}
		var r uint64
		switch {
		case b.signed && b.w == 64:
			r = uint64(int64(v))
		case b.signed && b.w == 32:
			r = uint64(int32(v))
		case b.signed && b.w == 16:
			r = uint64(int16(v))
		case b.signed:
			r = uint64(int8(v))
		case b.w == 64:
			r = uint64(v)
		case b.w == 32:
			r = uint64(uint32(v))
		case b.w == 16:
			r = uint64(uint16(v))
		default:
			r = uint64(uint8(v))
		}
		return Conc(r & mask(b.w))
	}
	e := x.(*Expr)
	if e.w == 32 {
		e = cx.F(OFToF, 64, e, nil)
	}
	fc := func(v float64) *Expr { return cx.Const(64, math.Float64bits(v)) }
	// amd64 behaviour: CVTTSD2SQ / CVTTSD2SL with the "integer indefinite" value out of range
	inRange := func(lo, hi float64) *Expr { // lo < e < hi
		return cx.And(cx.FLt(fc(lo), e), cx.FLt(e, fc(hi)))
	}
	if b.w == 64 && !b.signed {
		// out of the int64 range Go's result differs by platform; treat negative and >= 2^63 as a reduced bound
		ok := cx.And(cx.FLt(fc(-1), e), cx.FLt(e, fc(9223372036854775808.0)))
		if !w.truth(norm(ok)) {
			panic(pathEnd{"cut", "float to uint64 outside [0,2^63)"})
		}
		return norm(cx.F(OFToSI, 64, e, nil))
	}
	if b.w == 64 || (!b.signed && b.w == 32) {
		ok := cx.And(cx.Not(cx.FLt(e, fc(-9223372036854775808.0))), cx.FLt(e, fc(9223372036854775808.0)))
		ok = cx.And(ok, cx.FEq(e, e))
		r := cx.Ite(ok, cx.F(OFToSI, 64, e, nil), cx.Const(64, 1<<63))
		return norm(cx.Extract(r, b.w-1, 0))
	}
	ok := inRange(-2147483649.0, 2147483648.0)
	r := cx.Ite(ok, cx.F(OFToSI, 32, e, nil), cx.Const(32, 1<<31))
	return norm(cx.Extract(r, b.w-1, 0))
}

func (w *Worker) slice(f *frame, in *ssa.Slice, ci *cinstr) Value {
	x := w.get(f, &ci.ops[0])
	opt := func(k int, have bool, def int) Value {
		if !have {
			return Conc(uint64(def))
		}
		return w.get(f, &ci.ops[k])
	}
	// operand order: X, Low, High, Max (nil operands are present as okVal nil)
	ops := ci.ops
	hasLow, hasHigh, hasMax := in.Low != nil, in.High != nil, in.Max != nil
	kLow, kHigh, kMax := 1, 2, 3
	_ = ops
	var arr []Value
	var str Value
	n, c := 0, 0
	switch a := x.(type) {
	case Slice:
		arr, n, c = a, len(a), cap(a)
	case *Value:
		if a == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		aa := (*a).(Arr)
		arr, n, c = aa, len(aa), len(aa)
	default:
		str = x
		n = strLen(x)
		c = n
	}
	cint := func(v Value, t types.Type, lim int) int {
		switch q := v.(type) {
		case Conc:
			tk := tkOf(t)
			i := int64(uint64(q))
			if tk.signed {
				i = int64(signExt(uint64(q), tk.w))
			}
			if i < 0 || i > int64(lim) {
				panic(w.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with limit %d", i, lim)))
			}
			return int(i)
		case *Expr:
			tk := tkOf(t)
			e := q
			if tk.signed {
				e = w.cx.Sext(q, 64)
			} else {
				e = w.cx.Zext(q, 64)
			}
			if !w.truth(norm(w.cx.Ule(e, w.cx.Const(64, uint64(lim))))) {
				panic(w.rtPanic("slice bounds out of range"))
			}
			return int(w.concretize(e))
		}
		panic("slice bound")
	}
	ty := func(v ssa.Value) types.Type {
		if v == nil {
			return types.Typ[types.Int]
		}
		return v.Type()
	}
	mx := cint(opt(kMax, hasMax, c), ty(in.Max), c)
	hi := cint(opt(kHigh, hasHigh, n), ty(in.High), mx)
	lo := cint(opt(kLow, hasLow, 0), ty(in.Low), hi)
	if str != nil {
		return strSlice(str, lo, hi)
	}
	if arr == nil {
		return Slice(nil)
	}
	return Slice(arr[lo:hi:mx])
}

func (w *Worker) makeSlice(f *frame, in *ssa.MakeSlice, ci *cinstr) Value {
	l := w.get(f, &ci.ops[0])
	c := w.get(f, &ci.ops[1])
	et := in.Type().Underlying().(*types.Slice).Elem()
	n := w.allocSize(l, tkOf(in.Len.Type()), "len")
	cp := n
	if in.Cap != in.Len {
		cp = w.allocSize(c, tkOf(in.Cap.Type()), "cap")
		if cp < n {
			panic(w.rtPanic("makeslice: cap out of range"))
		}
	}
	s := make(Slice, n, cp)
	full := s[:cp]
	z := zero(et)
	if isAgg(z) {
		for i := range full {
			full[i] = zero(et)
		}
	} else {
		for i := range full {
			full[i] = z
		}
	}
	return s
}

func (w *Worker) allocSize(v Value, tk TK, what string) int {
	switch x := v.(type) {
	case Conc:
		i := int64(uint64(x))
		if tk.signed {
			i = int64(signExt(uint64(x), tk.w))
		}
		if i < 0 || i > 1<<40 {
			panic(w.rtPanic("makeslice: " + what + " out of range"))
		}
		if i > w.maxAlloc {
			panic(pathEnd{"cut", "allocation above the bound"})
		}
		return int(i)
	case *Expr:
		e := x
		if tk.signed {
			e = w.cx.Sext(x, 64)
		} else {
			e = w.cx.Zext(x, 64)
		}
		cx := w.cx
		if !w.truth(norm(cx.Ult(e, cx.Const(64, 1<<40)))) {
			panic(w.rtPanic("makeslice: " + what + " out of range"))
		}
		if w.truth(norm(cx.Ule(e, cx.Const(64, uint64(w.allocLimit))))) {
			return int(w.concretize(e))
		}
		// one representative of the larger sizes
		if !w.truth(norm(cx.Ule(e, cx.Const(64, uint64(w.maxAlloc))))) {
			panic(pathEnd{"cut", "allocation above the bound"})
		}
		w.note("large-allocation-representative")
		return int(w.pin(e))
	}
	panic("allocSize")
}

func (w *Worker) next(f *frame, in *ssa.Next, it *RangeIter) Value {
	if in.IsString {
		n := strLen(it.s)
		if it.pos >= n {
			return Tuple{Conc(0), Conc(0), Conc(0)}
		}
		fn := w.eng.fn("unicode/utf8", "DecodeRuneInString")
		t := w.callFn(f, fn, []Value{strSlice(it.s, it.pos, n)}, nil).(Tuple)
		pos := it.pos
		it.pos += int(w.concretizeV(t[1]))
		return Tuple{Conc(1), Conc(uint64(pos)), t[0]}
	}
	// keep live entries only
	var live []*mapEntry
	for _, e := range it.ents {
		if e.live {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		tt := in.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return zero(t)
		}
		return Tuple{Conc(0), z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	k := 0
	if w.mapOrder && len(live) > 1 {
		k = w.choose("maporder", len(live))
	}
	e := live[k]
	it.ents = append(append([]*mapEntry(nil), live[:k]...), live[k+1:]...)
	return Tuple{Conc(1), copyVal(e.k), copyVal(e.v)}
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x Value) Value {
	itf := x.(Iface)
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if itf.t != nil {
			ok = w.implements(itf.t, in.AssertedType, it)
		}
		v = itf
		if !ok {
			v = Iface{}
		}
	} else {
		ok = itf.t != nil && w.identical(itf.t, in.AssertedType)
		if ok {
			v = copyVal(itf.v)
		} else {
			v = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, Conc(b2u(ok))}
	}
	if !ok {
		panic(w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", typeStr(itf.t), typeStr(in.AssertedType))))
	}
	return v
}

type implKey struct{ t, i types.Type }

func (w *Worker) implements(t types.Type, it types.Type, i *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impls[k]; ok {
		return r
	}
	buildMu.Lock()
	r := types.Implements(t, i)
	buildMu.Unlock()
	w.impls[k] = r
	return r
}

func (w *Worker) builtin(f *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return Conc(len(x))
		case Arr:
			return Conc(len(x))
		case *Map:
			if x == nil {
				return Conc(0)
			}
			return Conc(x.n)
		case *Chan:
			if x == nil {
				return Conc(0)
			}
			return Conc(len(x.buf))
		case *Value:
			return Conc(len((*x).(Arr)))
		default:
			return Conc(strLen(x))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return Conc(cap(x))
		case Arr:
			return Conc(len(x))
		case *Chan:
			return Conc(x.cap)
		case *Value:
			return Conc(len((*x).(Arr)))
		}
	case "append":
		s, _ := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr, *Opaque:
			add = strBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		need := len(s) + len(add)
		if need > cap(s) {
			nc := cap(s) * 2
			if cap(s) >= 256 {
				nc = cap(s) + (cap(s)+768)/4
			}
			if nc < need {
				nc = need
			}
			if nc < 8 {
				nc = 8
			}
			ns := make(Slice, len(s), nc)
			copy(ns, s)
			// cells beyond len hold zero values of the element type
			if len(args) > 1 && c != nil {
				if st, ok := c.Signature().Params().At(0).Type().Underlying().(*types.Slice); ok {
					full := ns[:nc]
					z := zero(st.Elem())
					for i := need; i < nc; i++ {
						if isAgg(z) {
							full[i] = zero(st.Elem())
						} else {
							full[i] = z
						}
					}
				}
			}
			s = ns
		}
		// overlapping source: copy first
		tmp := make([]Value, len(add))
		for i, e := range add {
			if isAgg(e) {
				e = copyVal(e)
			}
			tmp[i] = e
		}
		n := len(s)
		s = s[:need]
		copy(s[n:], tmp)
		return s
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			src = strBytes(y)
		}
		n := min(len(dst), len(src))
		if n > 0 && isAgg(src[0]) {
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(src[i])
			}
			for i := range tmp {
				storeTo(&dst[i], tmp[i])
			}
		} else {
			copy(dst, src)
		}
		return Conc(n)
	case "delete":
		m, _ := args[0].(*Map)
		w.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					e.live = false
				}
				x.ents, x.idx, x.n, x.nsym = nil, map[Value]*mapEntry{}, 0, 0
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
		}
		return nil
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			panic(w.rtPanic("close of nil channel"))
		}
		if ch.closed {
			panic(w.rtPanic("close of closed channel"))
		}
		ch.closed = true
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// called from a deferred function: its caller frame is the panicking one
		if f.caller != nil && f.caller.panicv != nil {
			v := f.caller.panicv.v
			f.caller.panicv = nil
			return v
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return args[0]
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		ci := &cinstr{tk: tkOf(t), tk2: tkOf(t)}
		for _, a := range args[1:] {
			lt := w.binop(token.LSS, ci, t, a, r)
			take := lt
			if b.Name() == "max" {
				take = w.binop(token.LSS, ci, t, r, a)
			}
			switch q := take.(type) {
			case Conc:
				if q != 0 {
					r = a
				}
			case *Expr:
				if ci.tk.kind == kInt {
					r = norm(w.cx.Ite(q, w.expr(a, ci.tk.w), w.expr(r, ci.tk.w)))
				} else if w.branch(q) {
					r = a
				}
			}
		}
		return r
	case "String": // unsafe.String
		n := int(w.concretizeV(args[1]))
		if n == 0 {
			return ""
		}
		if sd, ok := args[0].(*SliceData); ok {
			return mkStr(append([]Value(nil), sd.s[:n]...))
		}
		if p, ok := args[0].(*Value); ok && n == 1 {
			return mkStr([]Value{*p})
		}
		panic(unsupported{"unsafe.String of a general pointer"})
	case "SliceData":
		return &SliceData{args[0].(Slice)}
	case "StringData":
		return &SliceData{Slice(strBytes(args[0]))}
	case "Slice":
		if sd, ok := args[0].(*SliceData); ok {
			n := int(w.concretizeV(args[1]))
			return sd.s[:n:n]
		}
	}
	panic(unsupported{"builtin " + b.Name()})
}

// SliceData is the result of unsafe.SliceData / StringData.
type SliceData struct{ s Slice }

// ---- region merging: evaluate pure acyclic code without forking ----

type redge struct {
	from int // predecessor block index, -1 unused
	cond *Expr
}

// region evaluates the pure blocks reachable from the If at the end of cb whose predecessors all lie
// inside the region, and forks only over distinct exits.
func (w *Worker) region(f *frame, cb *cblock, cond *Expr) (done, ret bool) {
	fi := f.fi
	cx := w.cx
	in := map[int][]redge{}
	var queue []int
	push := func(b int, e redge) {
		if e.cond == cx.fls {
			// keep the edge: it counts as processed but contributes nothing
		}
		if _, ok := in[b]; !ok {
			queue = append(queue, b)
		}
		in[b] = append(in[b], e)
	}
	start := cb.b.Index
	push(cb.b.Succs[0].Index, redge{start, cond})
	push(cb.b.Succs[1].Index, redge{start, cx.Not(cond)})
	if len(queue) == 1 { // both to the same block
	}
	type exit struct {
		block int
		edges []redge
		cond  *Expr
		isRet bool
		phis  []Value
		res   Value
	}
	var exits []exit
	nblocks := 0
	for len(queue) > 0 {
		// smallest rpo first
		// (targets of back edges come last: more edges to them may turn up)
		key := func(b int) int {
			if r := fi.blocks[b].rpo; r > fi.blocks[start].rpo {
				return r
			}
			return 1<<30 + b
		}
		sort.Slice(queue, func(i, j int) bool { return key(queue[i]) < key(queue[j]) })
		b := queue[0]
		queue = queue[1:]
		es := in[b]
		bl := &fi.blocks[b]
		rc := cx.fls
		for _, e := range es {
			rc = cx.Or(rc, e.cond)
		}
		inside := bl.static && nblocks < 80 && bl.rpo > fi.blocks[start].rpo && len(es) == len(bl.b.Preds)
		// phis
		var phis []Value
		mergeable := true
		if bl.nphi > 0 {
			phis, mergeable = w.mergePhis(f, bl, es)
		}
		if !mergeable {
			inside = false
		}
		ok := false
		if inside {
			if rc == cx.fls {
				ok = true
				// unreachable: still mark successors' edges as processed
				w.regionSuccs(bl, rc, nil, push)
				continue
			}
			for i := 0; i < bl.nphi; i++ {
				f.regs[bl.ins[i].dst] = phis[i]
			}
			ok = w.pureBlock(f, bl)
		}
		if ok {
			nblocks++
			last := &bl.ins[len(bl.ins)-1]
			switch last.in.(type) {
			case *ssa.Jump:
				push(bl.b.Succs[0].Index, redge{b, rc})
				continue
			case *ssa.If:
				c := w.get(f, &last.ops[0])
				var ce *Expr
				switch x := c.(type) {
				case Conc:
					ce = cx.Bool(x != 0)
				case *Expr:
					ce = x
				}
				push(bl.b.Succs[0].Index, redge{b, cx.And(rc, ce)})
				push(bl.b.Succs[1].Index, redge{b, cx.And(rc, cx.Not(ce))})
				continue
			case *ssa.Return:
				var res Value
				switch len(last.ops) {
				case 0:
				case 1:
					res = w.get(f, &last.ops[0])
				default:
					t := make(Tuple, len(last.ops))
					for k := range last.ops {
						t[k] = w.get(f, &last.ops[k])
					}
					res = t
				}
				exits = append(exits, exit{block: b, cond: rc, isRet: true, res: res})
				continue
			}
		}
		// exit
		if mergeable {
			if rc != cx.fls {
				exits = append(exits, exit{block: b, edges: es, cond: rc, phis: phis})
			}
		} else {
			for _, e := range es {
				if e.cond == cx.fls {
					continue
				}
				ph, _ := w.mergePhis(f, bl, []redge{e})
				exits = append(exits, exit{block: b, edges: []redge{e}, cond: e.cond, phis: ph})
			}
		}
	}
	// merge return exits
	for i := 0; i < len(exits); i++ {
		if !exits[i].isRet {
			continue
		}
		for j := i + 1; j < len(exits); {
			if exits[j].isRet {
				if r, ok := w.mergeVal(exits[j].cond, exits[j].res, exits[i].res, f.fi.fn.Signature.Results()); ok {
					exits[i].res = r
					exits[i].cond = cx.Or(exits[i].cond, exits[j].cond)
					exits = append(exits[:j], exits[j+1:]...)
					continue
				}
			}
			j++
		}
	}
	if len(exits) == 0 {
		panic(unsupported{"region without exit"})
	}
	// fork over exits
	k := len(exits) - 1
	for i := 0; i < len(exits)-1; i++ {
		if w.truth(norm(exits[i].cond)) {
			k = i
			break
		}
	}
	x := &exits[k]
	if x.isRet {
		f.result = x.res
		return true, true
	}
	bl := &fi.blocks[x.block]
	for i := 0; i < bl.nphi; i++ {
		f.regs[bl.ins[i].dst] = x.phis[i]
	}
	f.block = x.block
	f.prev = -1 // phis are already set
	return true, false
}

func (w *Worker) regionSuccs(bl *cblock, rc *Expr, _ any, push func(int, redge)) {
	for _, s := range bl.b.Succs {
		push(s.Index, redge{bl.b.Index, w.cx.fls})
	}
}

func (w *Worker) mergePhis(f *frame, bl *cblock, es []redge) ([]Value, bool) {
	out := make([]Value, bl.nphi)
	for i := 0; i < bl.nphi; i++ {
		ci := &bl.ins[i]
		var r Value
		have := false
		used := map[int]int{}
		for _, e := range es {
			// the k-th edge from the same predecessor uses the k-th matching pred slot (operands agree)
			pi := -1
			cnt := used[e.from]
			used[e.from]++
			for j, p := range bl.b.Preds {
				if p.Index == e.from {
					if cnt == 0 {
						pi = j
						break
					}
					cnt--
				}
			}
			if e.cond == w.cx.fls {
				continue
			}
			if pi < 0 {
				return nil, false
			}
			v := w.get(f, &ci.ops[pi])
			if !have {
				r, have = v, true
				continue
			}
			m, ok := w.mergeVal(e.cond, v, r, ci.in.(ssa.Value).Type())
			if !ok {
				return nil, false
			}
			r = m
		}
		out[i] = r
	}
	return out, true
}

// mergeVal builds ite(c, a, b) when both are scalars or identical.
func (w *Worker) mergeVal(c *Expr, a, b Value, t types.Type) (Value, bool) {
	switch x := a.(type) {
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		tt := t.(*types.Tuple)
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := w.mergeVal(c, x[i], y[i], tt.At(i).Type())
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Conc:
		if y, ok := b.(Conc); ok && x == y {
			return a, true
		}
	case *Expr:
		if y, ok := b.(*Expr); ok && x == y {
			return a, true
		}
	case string:
		y, ok := b.(string)
		return a, ok && x == y
	case *Value:
		y, ok := b.(*Value)
		return a, ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return a, true
		}
		if x.t != nil && y.t != nil && x.t == y.t {
			v, ok := w.mergeVal(c, x.v, y.v, x.t)
			if ok {
				return Iface{x.t, v}, true
			}
		}
		return nil, false
	case nil:
		return nil, b == nil
	case Slice:
		y, ok := b.(Slice)
		if ok && x == nil && y == nil {
			return a, true
		}
		if ok && len(x) > 0 && len(x) == len(y) && cap(x) == cap(y) && &x[0] == &y[0] {
			return a, true
		}
		return nil, false
	default:
		return nil, false
	}
	switch b.(type) {
	case Conc, *Expr:
	default:
		return nil, false
	}
	if tt, ok := t.(*types.Tuple); ok && tt.Len() == 1 {
		t = tt.At(0).Type()
	}
	tk := tkOf(t)
	switch tk.kind {
	case kBool, kInt, kFloat:
		return norm(w.cx.Ite(c, w.expr(a, tk.w), w.expr(b, tk.w))), true
	}
	return nil, false
}

// pureBlock evaluates the non-phi, non-terminator instructions of a block if none can fail, fork or have an effect.
func (w *Worker) pureBlock(f *frame, bl *cblock) bool {
	n := len(bl.ins)
	switch bl.ins[n-1].in.(type) {
	case *ssa.Jump, *ssa.If, *ssa.Return:
	default:
		return false
	}
	w.fuel -= n
	for i := bl.nphi; i < n-1; i++ {
		ci := &bl.ins[i]
		if !w.pureOK(f, ci) {
			return false
		}
		w.exec(f, ci, ci.in)
	}
	return true
}

func (w *Worker) pureOK(f *frame, ci *cinstr) bool {
	arg := func(i int) Value { return w.get(f, &ci.ops[i]) }
	for i := range ci.ops {
		if ci.ops[i].kind == okReg && f.regs[ci.ops[i].reg] == nil {
			if _, isPhi := ci.in.(*ssa.Phi); !isPhi {
				// a register that was never set (unreachable definition)
				switch ci.in.(type) {
				case *ssa.Return:
				default:
					return false
				}
			}
		}
	}
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			if ci.tk.kind != kInt {
				return true
			}
			c, ok := arg(1).(Conc)
			return ok && c != 0
		case token.SHL, token.SHR:
			if !ci.tk2.signed {
				return true
			}
			c, ok := arg(1).(Conc)
			return ok && int64(signExt(uint64(c), ci.tk2.w)) >= 0
		case token.EQL, token.NEQ:
			x, y := arg(0), arg(1)
			if a, ok := x.(Iface); ok {
				b, ok := y.(Iface)
				return ok && (a.t == nil || b.t == nil || a.t != b.t)
			}
			if _, ok := x.(*Opaque); ok {
				return false
			}
			if _, ok := y.(*Opaque); ok {
				return false
			}
			return true
		}
		return true
	case *ssa.UnOp:
		if in.Op == token.MUL {
			x := arg(0)
			if g, ok := in.X.(*ssa.Global); ok {
				return w.globalReady(g)
			}
			switch p := x.(type) {
			case *Value:
				return p != nil
			case *SymPtr:
				for _, e := range p.elems {
					switch e.(type) {
					case Conc, *Expr:
					default:
						return false
					}
				}
				return len(p.elems) <= 512
			}
			return false
		}
		return true
	case *ssa.FieldAddr:
		p, ok := arg(0).(*Value)
		return ok && p != nil
	case *ssa.IndexAddr:
		i := arg(1)
		n := -1
		switch a := arg(0).(type) {
		case Slice:
			n = len(a)
		case *Value:
			if a != nil {
				if arr, ok := (*a).(Arr); ok {
					n = len(arr)
				}
			}
		}
		return w.inRange(i, tkOf(in.Index.Type()), n)
	case *ssa.Index:
		switch a := arg(0).(type) {
		case Arr:
			return w.inRange(arg(1), tkOf(in.Index.Type()), len(a))
		case string, *SymStr:
			return w.inRange(arg(1), tkOf(in.Index.Type()), strLen(a))
		}
		return false
	case *ssa.Lookup:
		switch a := arg(0).(type) {
		case string, *SymStr:
			return w.inRange(arg(1), tkOf(in.Index.Type()), strLen(a))
		}
		return false
	case *ssa.Call:
		for i := range ci.ops {
			if i > 0 {
				if _, ok := arg(i).(*Opaque); ok {
					return false
				}
			}
		}
		return true
	}
	return true
}

func (w *Worker) inRange(i Value, tk TK, n int) bool {
	switch x := i.(type) {
	case Conc:
		return n >= 0 && uint64(x) < uint64(n)
	case *Expr:
		return n > 0 && x.umax < uint64(n) && (!tk.signed || x.umax < 1<<(x.w-1))
	}
	return false
}
