package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	okReg uint8 = iota
	okVal
	okGlobal
	okErr
)

type opnd struct {
	kind uint8
	reg  int32
	v    Value
	g    *ssa.Global
}

type cinstr struct {
	in   ssa.Instruction
	dst  int32
	ops  []opnd
	tk   TK // operand kind (BinOp.X, UnOp.X, Convert source)
	tk2  TK // second operand / destination
	pure bool
}

type cblock struct {
	b      *ssa.BasicBlock
	ins    []cinstr
	nphi   int
	rpo    int
	static bool // every instruction has a pure opcode
}

type FnInfo struct {
	fn        *ssa.Function
	name      string
	nregs     int32
	blocks    []cblock
	hasDefer  bool
	recoverBl int
	intr      intrinsic
	model     *ssa.Function
}

var (
	fnMu    sync.RWMutex
	fnInfos = map[*ssa.Function]*FnInfo{}
	buildMu sync.Mutex
)

func getFn(fn *ssa.Function) *FnInfo {
	fnMu.RLock()
	fi := fnInfos[fn]
	fnMu.RUnlock()
	if fi != nil {
		return fi
	}
	fi = compileFn(fn)
	fnMu.Lock()
	if f2 := fnInfos[fn]; f2 != nil {
		fi = f2
	} else {
		fnInfos[fn] = fi
	}
	fnMu.Unlock()
	return fi
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func compileFn(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, name: fnName(fn), recoverBl: -1}
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
		if !softIntrinsics[fi.name] {
			return fi
		}
	}
	if m, ok := modelFor(fi.name); ok {
		fi.model = m
		return fi
	}
	{
		// a function of a package that another worker is building must not be looked at before it is done
		pkg := fn.Package()
		if pkg == nil && fn.Origin() != nil {
			pkg = fn.Origin().Package()
		}
		buildMu.Lock()
		if pkg != nil {
			pkg.Build()
		}
		buildMu.Unlock()
	}
	if fn.Blocks == nil {
		return fi
	}
	idx := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		idx[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = n
	fi.blocks = make([]cblock, len(fn.Blocks))
	var buf [16]*ssa.Value
	for i, b := range fn.Blocks {
		cb := &fi.blocks[i]
		cb.b = b
		cb.static = true
		cb.ins = make([]cinstr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			for _, op := range in.Operands(buf[:0]) {
				if *op == nil {
					ci.ops = append(ci.ops, opnd{kind: okVal})
					continue
				}
				ci.ops = append(ci.ops, mkOpnd(*op, idx))
			}
			switch x := in.(type) {
			case *ssa.Phi:
				cb.nphi++
				ci.pure = true
			case *ssa.BinOp:
				ci.tk = tkOf(x.X.Type())
				ci.tk2 = tkOf(x.Y.Type())
				ci.pure = ci.tk.kind == kInt || ci.tk.kind == kBool || ci.tk.kind == kFloat || ((x.Op == token.EQL || x.Op == token.NEQ) && ci.tk.kind == kString)
				if x.Op == token.EQL || x.Op == token.NEQ {
					switch x.X.Type().Underlying().(type) {
					case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan, *types.Interface:
						ci.pure = true
					}
				}
			case *ssa.UnOp:
				ci.tk = tkOf(x.X.Type())
				ci.pure = x.Op != token.ARROW
			case *ssa.Convert:
				ci.tk = tkOf(x.X.Type())
				ci.tk2 = tkOf(x.Type())
				ci.pure = (ci.tk.kind == kInt || ci.tk.kind == kFloat) && (ci.tk2.kind == kInt || ci.tk2.kind == kFloat)
			case *ssa.ChangeType, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Extract, *ssa.MakeInterface, *ssa.ChangeInterface:
				ci.pure = true
			case *ssa.Index, *ssa.Lookup:
				ci.pure = true
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					ci.pure = true
				}
			case *ssa.Defer:
				fi.hasDefer = true
			}
			if !ci.pure {
				cb.static = false
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		fi.recoverBl = fn.Recover.Index
		fi.hasDefer = true
	}
	// reverse postorder
	seen := make([]bool, len(fn.Blocks))
	var order []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		order = append(order, b.Index)
	}
	dfs(fn.Blocks[0])
	for i, bi := range order {
		fi.blocks[bi].rpo = len(order) - 1 - i
	}
	return fi
}

func mkOpnd(v ssa.Value, idx map[ssa.Value]int32) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return mkConst(x)
	case *ssa.Global:
		return opnd{kind: okGlobal, g: x}
	case *ssa.Function:
		return opnd{kind: okVal, v: x}
	case *ssa.Builtin:
		return opnd{kind: okVal, v: x}
	}
	r, ok := idx[v]
	if !ok {
		return opnd{kind: okErr}
	}
	return opnd{kind: okReg, reg: r}
}

func mkConst(x *ssa.Const) (o opnd) {
	defer func() {
		if r := recover(); r != nil {
			o = opnd{kind: okErr}
		}
	}()
	v := constVal(x)
	if isAgg(v) {
		// aggregates must be fresh at each use: handled by copy in get
		return opnd{kind: okVal, v: v}
	}
	return opnd{kind: okVal, v: v}
}
