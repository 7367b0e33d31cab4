package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is the operator of a symbolic expression.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OBvAdd
	OBvSub
	OBvMul
	OBvUdiv
	OBvUrem
	OBvSdiv
	OBvSrem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OBvNeg
	OBvShl
	OBvLshr
	OBvAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8 | lo
	OZext
	OSext
	OConcat
	OFAdd // floating point through the SMT FP theory, operands and result as IEEE bits
	OFSub
	OFMul
	OFDiv
	OFToSI // float bits -> signed int of width w (RTZ), operand width a.w
	OFToUI
	OSIToF // signed int -> float bits of width w (RNE)
	OUIToF
	OFToF
	OFLt
	OFLe
	OFEq
)

var opNames = map[Op]string{OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", ONot: "not", OBvAdd: "bvadd", OBvSub: "bvsub", OBvMul: "bvmul",
	OBvUdiv: "bvudiv", OBvUrem: "bvurem", OBvSdiv: "bvsdiv", OBvSrem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvNot: "bvnot",
	OBvNeg: "bvneg", OBvShl: "bvshl", OBvLshr: "bvlshr", OBvAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

// Expr is a hash-consed term; w == 0 means Bool, otherwise a bit-vector of that width.
type Expr struct {
	op      Op
	w       uint8
	a, b, c *Expr
	val     uint64
	vi      int32 // variable index for OVar
	id      int32
	h       uint64 // structural hash, identical across workers
	vars    varset
	umax    uint64 // upper bound on the unsigned value
	// evaluation memo
	ev      uint64
	evEpoch uint32
	defEp   uint32 // solver epoch in which the term has a name
}

type varset []uint64

func (v varset) has(i int32) bool {
	return int(i>>6) < len(v) && v[i>>6]&(1<<(uint(i)&63)) != 0
}
func (v varset) intersects(o varset) bool {
	n := len(v)
	if len(o) < n {
		n = len(o)
	}
	for i := 0; i < n; i++ {
		if v[i]&o[i] != 0 {
			return true
		}
	}
	return false
}
func (v varset) union(o varset) varset {
	if len(o) > len(v) {
		v, o = o, v
	}
	sub := true
	for i := range o {
		if o[i]&^v[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return v
	}
	r := make(varset, len(v))
	copy(r, v)
	for i := range o {
		r[i] |= o[i]
	}
	return r
}

type exprKey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	vi      int32
}

// Ctx is a per-worker expression context.
type Ctx struct {
	tab   map[exprKey]*Expr
	next  int32
	tru   *Expr
	fls   *Expr
	epoch uint32 // evaluation epoch
	model []uint64
}

func newCtx() *Ctx {
	c := &Ctx{}
	c.reset()
	return c
}

func (c *Ctx) reset() {
	c.tab = make(map[exprKey]*Expr, 1<<14)
	c.next = 1
	c.tru = c.mk(OConst, 0, nil, nil, nil, 1, 0)
	c.fls = c.mk(OConst, 0, nil, nil, nil, 0, 0)
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Expr, val uint64, vi int32) *Expr {
	k := exprKey{op: op, w: w, val: val, vi: vi}
	if a != nil {
		k.a = a.id
	}
	if b != nil {
		k.b = b.id
	}
	if d != nil {
		k.c = d.id
	}
	if e, ok := c.tab[k]; ok {
		return e
	}
	e := &Expr{op: op, w: w, a: a, b: b, c: d, val: val, vi: vi, id: c.next}
	c.next++
	h := mix(uint64(op)*0x1234567, uint64(w))
	h = mix(h, val)
	h = mix(h, uint64(vi))
	e.umax = mask(w)
	if a != nil {
		h = mix(h, a.h)
		e.vars = a.vars
	}
	if b != nil {
		h = mix(h, b.h*3)
		e.vars = e.vars.union(b.vars)
	}
	if d != nil {
		h = mix(h, d.h*7)
		e.vars = e.vars.union(d.vars)
	}
	e.h = h
	switch op {
	case OConst:
		e.umax = val
	case OVar:
		v := make(varset, vi/64+1)
		v[vi>>6] |= 1 << (uint(vi) & 63)
		e.vars = v
	case OZext:
		e.umax = a.umax
	case OBvAnd:
		e.umax = min(a.umax, b.umax)
	case OBvOr, OBvXor:
		m := a.umax | b.umax
		e.umax = mask(uint8(bits.Len64(m)))
		if m == 0 {
			e.umax = 0
		}
	case OBvLshr:
		if b.op == OConst && b.val < 64 {
			e.umax = a.umax >> b.val
		} else {
			e.umax = a.umax
		}
	case OBvShl:
		if b.op == OConst && b.val < 64 && bits.Len64(a.umax)+int(b.val) <= int(w) {
			e.umax = a.umax << b.val
		}
	case OIte:
		if w > 0 {
			e.umax = max(b.umax, d.umax)
		}
	case OBvAdd:
		s, cr := bits.Add64(a.umax, b.umax, 0)
		if cr == 0 && s <= mask(w) {
			e.umax = s
		}
	case OBvMul:
		hi, lo := bits.Mul64(a.umax, b.umax)
		if hi == 0 && lo <= mask(w) {
			e.umax = lo
		}
	case OBvUdiv:
		if b.op == OConst && b.val > 0 {
			e.umax = a.umax / b.val
		}
	case OBvUrem:
		if b.op == OConst && b.val > 0 {
			e.umax = min(a.umax, b.val-1)
		}
	case OExtract:
		lo := val & 0xff
		if lo == 0 {
			e.umax = min(a.umax, mask(w))
		} else {
			e.umax = min(a.umax>>lo, mask(w))
		}
	case OConcat:
		e.umax = a.umax<<b.w | mask(b.w)
	}
	c.tab[k] = e
	return e
}

func (c *Ctx) Const(w uint8, v uint64) *Expr { return c.mk(OConst, w, nil, nil, nil, v&mask(w), 0) }
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.tru
	}
	return c.fls
}
func (c *Ctx) Var(i int32, w uint8) *Expr { return c.mk(OVar, w, nil, nil, nil, 0, i) }

func (c *Ctx) Not(a *Expr) *Expr {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil, 0, 0)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.fls
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	return c.mk(OAnd, 0, a, b, nil, 0, 0)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.tru
	}
	// (x&y)|(x&!y) -> x
	if a.op == OAnd && b.op == OAnd {
		if a.a == b.a && isNeg(a.b, b.b) {
			return a.a
		}
		if a.b == b.b && isNeg(a.a, b.a) {
			return a.b
		}
		if a.a == b.b && isNeg(a.b, b.a) {
			return a.a
		}
		if a.b == b.a && isNeg(a.a, b.b) {
			return a.b
		}
	}
	// x | (!x & y) -> x | y
	if b.op == OAnd {
		if isNeg(b.a, a) {
			return c.Or(a, b.b)
		}
		if isNeg(b.b, a) {
			return c.Or(a, b.a)
		}
	}
	if a.op == OAnd {
		if isNeg(a.a, b) {
			return c.Or(a.b, b)
		}
		if isNeg(a.b, b) {
			return c.Or(a.a, b)
		}
	}
	return c.mk(OOr, 0, a, b, nil, 0, 0)
}

func isNeg(a, b *Expr) bool {
	return (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a)
}

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if cond.op == OConst {
		if cond.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		cond, a, b = cond.a, b, a
	}
	if a.w == 0 {
		if a.op == OConst && b.op == OConst {
			if a.val != 0 {
				return cond
			}
			return c.Not(cond)
		}
		if a.op == OConst {
			if a.val != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.op == OConst {
			if b.val != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, cond, a, b, 0, 0)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.tru
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op != OConst && a.h > b.h {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
		if a.op == ONot && b.op == ONot {
			return c.Eq(a.a, b.a)
		}
		return c.mk(OEq, 0, a, b, nil, 0, 0)
	}
	if b.op == OConst {
		if b.val > a.umax {
			return c.fls
		}
		switch a.op {
		case OZext:
			return c.Eq(a.a, c.Const(a.a.w, b.val))
		case OSext:
			t := b.val & mask(a.a.w)
			if signExt(t, a.a.w)&mask(a.w) != b.val {
				return c.fls
			}
			return c.Eq(a.a, c.Const(a.a.w, t))
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OBvAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
			}
		case OBvXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.val^a.b.val))
			}
		case OBvNot:
			return c.Eq(a.a, c.Const(a.w, ^b.val))
		case OConcat:
			return c.And(c.Eq(a.a, c.Const(a.a.w, b.val>>a.b.w)), c.Eq(a.b, c.Const(a.b.w, b.val)))
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
			return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
		}
	}
	return c.mk(OEq, 0, a, b, nil, 0, 0)
}

func signExt(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	if v&(1<<(w-1)) != 0 {
		return v | ^mask(w)
	}
	return v
}

func (c *Ctx) Extract(a *Expr, hi, lo uint8) *Expr {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.val>>lo)
	case OExtract:
		l0 := uint8(a.val & 0xff)
		return c.Extract(a.a, hi+l0, lo+l0)
	case OZext:
		if lo >= a.a.w {
			return c.Const(w, 0)
		}
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
		return c.Zext(c.Extract(a.a, a.a.w-1, lo), w)
	case OSext:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return c.Sext(a.a, w)
		}
		if lo < a.a.w {
			return c.Sext(c.Extract(a.a, a.a.w-1, lo), w)
		}
	case OConcat:
		if hi < a.b.w {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return c.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return c.Concat(c.Extract(a.a, hi-a.b.w, 0), c.Extract(a.b, a.b.w-1, lo))
	case OBvAnd:
		return c.Bin(OBvAnd, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OBvOr:
		return c.Bin(OBvOr, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OBvXor:
		return c.Bin(OBvXor, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OBvNot:
		return c.BvNot(c.Extract(a.a, hi, lo))
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
		}
	case OBvAdd, OBvSub, OBvMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0))
		}
	}
	return c.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), 0)
}

func (c *Ctx) Zext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(w, a.val)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Zext(a.b, w), c.Zext(a.c, w))
	}
	return c.mk(OZext, w, a, nil, nil, 0, 0)
}

func (c *Ctx) Sext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(w, signExt(a.val, a.w))
	}
	if a.umax < 1<<(a.w-1) {
		return c.Zext(a, w)
	}
	if a.op == OSext {
		return c.Sext(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Sext(a.b, w), c.Sext(a.c, w))
	}
	return c.mk(OSext, w, a, nil, nil, 0, 0)
}

// Concat puts a above b.
func (c *Ctx) Concat(a, b *Expr) *Expr {
	w := a.w + b.w
	if a.op == OConst && b.op == OConst {
		return c.Const(w, a.val<<b.w|b.val)
	}
	if a.op == OConst && a.val == 0 {
		return c.Zext(b, w)
	}
	// merge adjacent extracts
	if a.op == OExtract && b.op == OExtract && a.a == b.a {
		alo, bhi := uint8(a.val&0xff), uint8(b.val>>8)
		if alo == bhi+1 {
			return c.Extract(a.a, uint8(a.val>>8), uint8(b.val&0xff))
		}
	}
	// low part directly a prefix of the same term: concat(extract(hi..k,x), zextless x) handled when b is concat
	if b.op == OConcat && a.op == OExtract && b.a.op == OExtract && a.a == b.a.a && uint8(a.val&0xff) == uint8(b.a.val>>8)+1 {
		return c.Concat(c.Extract(a.a, uint8(a.val>>8), uint8(b.a.val&0xff)), b.b)
	}
	if a.op == OConcat { // right-associate
		return c.Concat(a.a, c.Concat(a.b, b))
	}
	if a.op == OZext {
		return c.Zext(c.Concat(a.a, b), w)
	}
	return c.mk(OConcat, w, a, b, nil, 0, 0)
}

func (c *Ctx) BvNot(a *Expr) *Expr {
	if a.op == OConst {
		return c.Const(a.w, ^a.val)
	}
	if a.op == OBvNot {
		return a.a
	}
	return c.mk(OBvNot, a.w, a, nil, nil, 0, 0)
}
func (c *Ctx) BvNeg(a *Expr) *Expr {
	if a.op == OConst {
		return c.Const(a.w, -a.val)
	}
	if a.op == OBvNeg {
		return a.a
	}
	return c.mk(OBvNeg, a.w, a, nil, nil, 0, 0)
}

// low zero bits known
func tz(e *Expr) uint8 {
	switch e.op {
	case OConst:
		if e.val == 0 {
			return e.w
		}
		return uint8(bits.TrailingZeros64(e.val))
	case OConcat:
		if e.b.op == OConst && e.b.val == 0 {
			return e.b.w + tz(e.a)
		}
	case OZext:
		t := tz(e.a)
		if t == e.a.w {
			return e.w
		}
		return t
	}
	return 0
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OBvAdd:
		return (x + y) & m
	case OBvSub:
		return (x - y) & m
	case OBvMul:
		return (x * y) & m
	case OBvUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OBvUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OBvSdiv:
		sx, sy := int64(signExt(x, w)), int64(signExt(y, w))
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OBvSrem:
		sx, sy := int64(signExt(x, w)), int64(signExt(y, w))
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBvAnd:
		return x & y
	case OBvOr:
		return x | y
	case OBvXor:
		return x ^ y
	case OBvShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OBvLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OBvAshr:
		sx := int64(signExt(x, w))
		if y >= uint64(w) {
			y = 63
		}
		return uint64(sx>>y) & m
	}
	panic("evalBin")
}

// Bin builds a bit-vector operation on equal widths.
func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return c.Const(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OBvAdd, OBvMul, OBvAnd, OBvOr, OBvXor:
		if a.op == OConst {
			a, b = b, a
		} else if b.op != OConst && a.h > b.h {
			a, b = b, a
		}
	}
	if b.op == OConst {
		v := b.val
		switch op {
		case OBvAdd:
			if v == 0 {
				return a
			}
			if a.op == OBvAdd && a.b.op == OConst {
				return c.Bin(OBvAdd, a.a, c.Const(w, a.b.val+v))
			}
		case OBvSub:
			return c.Bin(OBvAdd, a, c.Const(w, -v))
		case OBvMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
		case OBvUdiv, OBvSdiv:
			if v == 1 {
				return a
			}
			if op == OBvUdiv && v&(v-1) == 0 && v != 0 {
				return c.Bin(OBvLshr, a, c.Const(w, uint64(bits.TrailingZeros64(v))))
			}
			if op == OBvSdiv && a.umax < 1<<(w-1) && v < 1<<(w-1) {
				return c.Bin(OBvUdiv, a, b)
			}
		case OBvUrem:
			if v != 0 && v&(v-1) == 0 {
				return c.Bin(OBvAnd, a, c.Const(w, v-1))
			}
		case OBvSrem:
			if a.umax < 1<<(w-1) && v < 1<<(w-1) {
				return c.Bin(OBvUrem, a, b)
			}
		case OBvAnd:
			if v == 0 {
				return b
			}
			if v == mask(w) {
				return a
			}
			// masks of contiguous bits become extracts
			t := uint8(bits.TrailingZeros64(v))
			l := uint8(bits.Len64(v))
			if v>>t == mask(l-t) {
				if l < w || t > 0 {
					e := c.Extract(a, l-1, t)
					if t > 0 {
						e = c.Concat(e, c.Const(t, 0))
					}
					return c.Zext(e, w)
				}
			}
		case OBvOr:
			if v == 0 {
				return a
			}
			if v == mask(w) {
				return b
			}
		case OBvXor:
			if v == 0 {
				return a
			}
			if v == mask(w) {
				return c.BvNot(a)
			}
			if a.op == OBvXor && a.b.op == OConst {
				return c.Bin(OBvXor, a.a, c.Const(w, a.b.val^v))
			}
		case OBvShl:
			if v == 0 {
				return a
			}
			if v >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Concat(c.Extract(a, w-1-uint8(v), 0), c.Const(uint8(v), 0))
		case OBvLshr:
			if v == 0 {
				return a
			}
			if v >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Zext(c.Extract(a, w-1, uint8(v)), w)
		case OBvAshr:
			if v == 0 {
				return a
			}
			if v >= uint64(w) {
				v = uint64(w) - 1
			}
			if a.umax < 1<<(w-1) {
				return c.Bin(OBvLshr, a, c.Const(w, v))
			}
			return c.Sext(c.Extract(a, w-1, uint8(v)), w)
		}
	}
	if a.op == OConst && (op == OBvShl || op == OBvLshr || op == OBvUdiv || op == OBvUrem) && a.val == 0 && op <= OBvUrem {
		// 0/x with x==0 gives all ones in SMT; leave alone
	}
	if a == b {
		switch op {
		case OBvSub, OBvXor:
			return c.Const(w, 0)
		case OBvAnd, OBvOr:
			return a
		}
	}
	if op == OBvOr || op == OBvAdd || op == OBvXor {
		// disjoint bits: a above b
		for i := 0; i < 2; i++ {
			hi, lo := a, b
			if i == 1 {
				hi, lo = b, a
			}
			if t := tz(hi); t > 0 && t < w && lo.umax <= mask(t) {
				return c.Concat(c.Extract(hi, w-1, t), c.Extract(lo, t-1, 0))
			}
		}
	}
	if op == OBvOr && b.op == OConst && a.op == OConcat {
		return c.Concat(c.Bin(OBvOr, a.a, c.Const(a.a.w, b.val>>a.b.w)), c.Bin(OBvOr, a.b, c.Const(a.b.w, b.val)))
	}
	return c.mk(op, w, a, b, nil, 0, 0)
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val < b.val)
	}
	if a == b {
		return c.fls
	}
	if b.op == OConst {
		if a.umax < b.val {
			return c.tru
		}
		if b.val == 0 {
			return c.fls
		}
		if b.val == 1 {
			return c.Eq(a, c.Const(a.w, 0))
		}
		if a.op == OZext {
			return c.Ult(a.a, c.Const(a.a.w, b.val)) // b.val <= umax fits
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Ult(a.b, b), c.Ult(a.c, b))
		}
	}
	if a.op == OConst {
		if a.val >= b.umax {
			return c.fls
		}
		if a.val == 0 {
			return c.Not(c.Eq(b, a))
		}
		if b.op == OZext {
			return c.Ult(c.Const(b.a.w, a.val), b.a)
		}
		if b.op == OIte && b.b.op == OConst && b.c.op == OConst {
			return c.Ite(b.a, c.Ult(a, b.b), c.Ult(a, b.c))
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(OUlt, 0, a, b, nil, 0, 0)
}
func (c *Ctx) Ule(a, b *Expr) *Expr { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return c.Bool(int64(signExt(a.val, a.w)) < int64(signExt(b.val, b.w)))
	}
	if a == b {
		return c.fls
	}
	h := uint64(1) << (a.w - 1)
	if a.umax < h && b.umax < h {
		return c.Ult(a, b)
	}
	if b.op == OConst && b.val >= h && a.umax < h { // a nonneg, b negative
		return c.fls
	}
	if a.op == OConst && a.val >= h && b.umax < h {
		return c.tru
	}
	if a.op == OSext && b.op == OConst {
		n := a.a.w
		v := int64(signExt(b.val, b.w))
		if v > int64(mask(n-1)) {
			return c.tru
		}
		if v < -int64(uint64(1)<<(n-1)) {
			return c.fls
		}
		return c.Slt(a.a, c.Const(n, b.val))
	}
	if b.op == OSext && a.op == OConst {
		n := b.a.w
		v := int64(signExt(a.val, a.w))
		if v >= int64(mask(n-1)) {
			return c.fls
		}
		if v < -int64(uint64(1)<<(n-1)) {
			return c.tru
		}
		return c.Slt(c.Const(n, a.val), b.a)
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Slt(a.b, b), c.Slt(a.c, b))
	}
	return c.mk(OSlt, 0, a, b, nil, 0, 0)
}
func (c *Ctx) Sle(a, b *Expr) *Expr { return c.Not(c.Slt(b, a)) }

// FLt etc. compare IEEE bits with bit-vector terms only.
func (c *Ctx) fparts(a *Expr) (isnan, iszero, neg *Expr) {
	w := a.w
	mw := uint8(52)
	if w == 32 {
		mw = 23
	}
	abs := c.Extract(a, w-2, 0)
	inf := c.Const(w-1, ((mask(w-1))>>mw)<<mw)
	isnan = c.Ult(inf, abs)
	iszero = c.Eq(abs, c.Const(w-1, 0))
	neg = c.Eq(c.Extract(a, w-1, w-1), c.Const(1, 1))
	return
}

func fconst(e *Expr) float64 {
	if e.w == 32 {
		return float64(math.Float32frombits(uint32(e.val)))
	}
	return math.Float64frombits(e.val)
}

func (c *Ctx) FEq(a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return c.Bool(fconst(a) == fconst(b))
	}
	na, za, _ := c.fparts(a)
	nb, zb, _ := c.fparts(b)
	return c.And(c.And(c.Not(na), c.Not(nb)), c.Or(c.Eq(a, b), c.And(za, zb)))
}
func (c *Ctx) FLt(a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return c.Bool(fconst(a) < fconst(b))
	}
	na, za, sa := c.fparts(a)
	nb, zb, sb := c.fparts(b)
	absa, absb := c.Extract(a, a.w-2, 0), c.Extract(b, b.w-2, 0)
	bothz := c.And(za, zb)
	lt := c.Ite(sa, c.Ite(sb, c.Ult(absb, absa), c.Not(bothz)), c.Ite(sb, c.fls, c.Ult(absa, absb)))
	return c.And(c.And(c.Not(na), c.Not(nb)), lt)
}

func (c *Ctx) F(op Op, w uint8, a, b *Expr) *Expr {
	if a.op == OConst && (b == nil || b.op == OConst) {
		var y uint64
		if b != nil {
			y = b.val
		}
		return c.Const(w, evalF(op, w, a.w, a.val, y))
	}
	return c.mk(op, w, a, b, nil, 0, 0)
}

func evalF(op Op, w, aw uint8, x, y uint64) uint64 {
	f := func(v uint64, w uint8) float64 {
		if w == 32 {
			return float64(math.Float32frombits(uint32(v)))
		}
		return math.Float64frombits(v)
	}
	t := func(v float64, w uint8) uint64 {
		if w == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(v)
	}
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv:
		if w == 32 {
			p, q := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
			var r float32
			switch op {
			case OFAdd:
				r = p + q
			case OFSub:
				r = p - q
			case OFMul:
				r = p * q
			case OFDiv:
				r = p / q
			}
			return uint64(math.Float32bits(r))
		}
		p, q := math.Float64frombits(x), math.Float64frombits(y)
		var r float64
		switch op {
		case OFAdd:
			r = p + q
		case OFSub:
			r = p - q
		case OFMul:
			r = p * q
		case OFDiv:
			r = p / q
		}
		return math.Float64bits(r)
	case OFToSI:
		v := f(x, aw)
		switch w {
		case 8:
			return uint64(uint8(int8(int32(v))))
		case 16:
			return uint64(uint16(int16(int32(v))))
		case 32:
			return uint64(uint32(int32(v)))
		}
		return uint64(int64(v))
	case OFToUI:
		v := f(x, aw)
		switch w {
		case 8:
			return uint64(uint8(v))
		case 16:
			return uint64(uint16(v))
		case 32:
			return uint64(uint32(v))
		}
		return uint64(v)
	case OSIToF:
		i := int64(signExt(x, aw))
		if w == 32 {
			return uint64(math.Float32bits(float32(i)))
		}
		return math.Float64bits(float64(i))
	case OUIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OFToF:
		return t(f(x, aw), w)
	}
	panic("evalF")
}

// Eval evaluates e under the current model.
func (c *Ctx) Eval(e *Expr) uint64 {
	if e.op == OConst {
		return e.val
	}
	if e.evEpoch == c.epoch {
		return e.ev
	}
	var r uint64
	switch e.op {
	case OVar:
		if int(e.vi) < len(c.model) {
			r = c.model[e.vi] & mask(e.w)
		}
	case ONot:
		r = 1 - c.Eval(e.a)
	case OAnd:
		r = c.Eval(e.a) & c.Eval(e.b)
	case OOr:
		r = c.Eval(e.a) | c.Eval(e.b)
	case OIte:
		if c.Eval(e.a) != 0 {
			r = c.Eval(e.b)
		} else {
			r = c.Eval(e.c)
		}
	case OEq:
		r = b2u(c.Eval(e.a) == c.Eval(e.b))
	case OUlt:
		r = b2u(c.Eval(e.a) < c.Eval(e.b))
	case OSlt:
		r = b2u(int64(signExt(c.Eval(e.a), e.a.w)) < int64(signExt(c.Eval(e.b), e.b.w)))
	case OBvNot:
		r = ^c.Eval(e.a) & mask(e.w)
	case OBvNeg:
		r = -c.Eval(e.a) & mask(e.w)
	case OExtract:
		r = (c.Eval(e.a) >> (e.val & 0xff)) & mask(e.w)
	case OZext:
		r = c.Eval(e.a)
	case OSext:
		r = signExt(c.Eval(e.a), e.a.w) & mask(e.w)
	case OConcat:
		r = c.Eval(e.a)<<e.b.w | c.Eval(e.b)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = evalF(e.op, e.w, e.a.w, c.Eval(e.a), c.Eval(e.b))
	case OFToSI, OFToUI, OSIToF, OUIToF, OFToF:
		r = evalF(e.op, e.w, e.a.w, c.Eval(e.a), 0)
	default:
		r = evalBin(e.op, e.w, c.Eval(e.a), c.Eval(e.b))
	}
	e.ev, e.evEpoch = r, c.epoch
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) setModel(m []uint64) {
	c.model = m
	c.epoch++
}

// ---- SMT-LIB printing ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constText(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func varName(e *Expr) string {
	return fmt.Sprintf("v%d_%d", e.vi, e.w)
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// smtNode renders one node given a function that names operands.
func smtNode(e *Expr, ref func(*Expr) string) string {
	switch e.op {
	case OConst:
		return constText(e.w, e.val)
	case OVar:
		return varName(e)
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", e.val>>8, e.val&0xff, ref(e.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, ref(e.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, ref(e.a))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[e.op]
		s := fpSort(e.w)
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE ((_ to_fp %s) %s) ((_ to_fp %s) %s)))", n, s, ref(e.a), s, ref(e.b))
	case OSIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(e.w), ref(e.a))
	case OUIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(e.w), ref(e.a))
	case OFToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE ((_ to_fp %s) %s)))", fpSort(e.w), fpSort(e.a.w), ref(e.a))
	case OFToSI:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ ((_ to_fp %s) %s))", e.w, fpSort(e.a.w), ref(e.a))
	case OFToUI:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ ((_ to_fp %s) %s))", e.w, fpSort(e.a.w), ref(e.a))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[e.op])
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(ref(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
