package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Terms are hash-consed DAG nodes over booleans (w==0) and bit-vectors of
// 1..64 bits.  Floating-point values are bit-vectors; floating-point
// operations are ordinary nodes whose meaning is chosen when a query is
// emitted (uninterpreted, IEEE theory, or real arithmetic).

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract // v = lo, w = width
	OpZExt
	OpSExt
	// floating point; operand width decides the format
	OpFAdd
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFSqrt
	OpFLt
	OpFLe
	OpFEq
	OpFIsNaN
	OpFCvt   // between float32 and float64
	OpFToSI  // truncate, x86 "indefinite" when out of range
	OpFToSIR // round to nearest even, x86 indefinite when out of range
	OpSIToF
	OpUIToF
	OpFRound // v = rounding mode of round-to-integral: 0 nearest-even 1 floor 2 ceil 3 trunc
	OpUF     // uninterpreted named function
)

type Term struct {
	id   int32
	op   Op
	w    uint8
	flt  bool // value is naturally a float
	v    uint64
	name string
	args []*Term
}

func (t *Term) ID() int       { return int(t.id) }
func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == 0 && t.v == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == 0 && t.v == 0 }

type tkey struct {
	op      Op
	w       uint8
	v       uint64
	name    string
	a, b, c int32
}

type Ctx struct {
	tab   map[tkey]*Term
	nary  map[string]*Term
	n     int32
	True  *Term
	False *Term
	vars  []*Term
	// bounds on uninterpreted constants used by arithmetic modes
	fixed map[string]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, nary: map[string]*Term{}}
	c.True = c.Const(0, 1)
	c.False = c.Const(0, 0)
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) mk(op Op, w uint8, v uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, w: w, v: v, name: name, a: -1, b: -1, c: -1}
	if len(args) > 3 {
		s := fmt.Sprintf("%d/%d/%d/%s", op, w, v, name)
		for _, a := range args {
			s += fmt.Sprintf(",%d", a.id)
		}
		if t, ok := c.nary[s]; ok {
			return t
		}
		t := &Term{id: c.n, op: op, w: w, v: v, name: name, args: append([]*Term(nil), args...)}
		c.n++
		c.nary[s] = t
		return t
	}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.n, op: op, w: w, v: v, name: name}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	switch op {
	case OpFAdd, OpFMul, OpFDiv, OpFNeg, OpFAbs, OpFSqrt, OpFCvt, OpSIToF, OpUIToF, OpFRound:
		t.flt = true
	case OpUF:
		t.flt = true
	case OpIte:
		t.flt = args[1].flt || args[2].flt
	}
	c.n++
	c.tab[k] = t
	return t
}

func (c *Ctx) Const(w uint8, v uint64) *Term { return c.mk(OpConst, w, v&mask(w), "") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Int(v int64) *Term { return c.Const(64, uint64(v)) }
func (c *Ctx) Var(name string, w uint8, flt bool) *Term {
	n := c.n
	t := c.mk(OpVar, w, 0, name)
	if t.id == n {
		t.flt = flt
		c.vars = append(c.vars, t)
	}
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OpConst {
		return c.Bool(a.v == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	switch a.op {
	case OpUlt:
		return c.mk(OpUle, 0, 0, "", a.args[1], a.args[0])
	case OpUle:
		return c.mk(OpUlt, 0, 0, "", a.args[1], a.args[0])
	case OpSlt:
		return c.mk(OpSle, 0, 0, "", a.args[1], a.args[0])
	case OpSle:
		return c.mk(OpSlt, 0, 0, "", a.args[1], a.args[0])
	}
	return c.mk(OpNot, 0, 0, "", a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return c.False
	}
	if a.IsTrue() || a == b {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, 0, "", a, b)
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return c.True
	}
	if a.IsFalse() || a == b {
		return b
	}
	if b.IsFalse() {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	// (p & q) | (p & !q) = p
	if a.op == OpAnd && b.op == OpAnd {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if a.args[i] == b.args[j] {
					if c.Not(a.args[1-i]) == b.args[1-j] {
						return a.args[i]
					}
					return c.And(a.args[i], c.Or(a.args[1-i], b.args[1-j]))
				}
			}
		}
	}
	// p | (!p & q) = p | q
	if b.op != OpAnd {
		a, b = b, a
	}
	if b.op == OpAnd {
		na := c.Not(a)
		for i := 0; i < 2; i++ {
			if b.args[i] == na {
				return c.Or(a, b.args[1-i])
			}
			if b.args[i] == a {
				return a
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, 0, 0, "", a, b)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Xor(a, b *Term) *Term     { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.op == OpConst {
		if p.v == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if p.op == OpNot {
		p, a, b = p.args[0], b, a
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(p, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(p), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.IsFalse() {
			return c.And(p, a)
		}
	}
	if a.op == OpIte && a.args[0] == p {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == p {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.op == OpIte && b.args[1] == a {
		return c.Ite(c.Or(p, b.args[0]), a, b.args[2])
	}
	return c.mk(OpIte, a.w, 0, "", p, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.v == b.v)
	}
	if b.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if a.IsTrue() {
			return b
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if c.Not(a) == b {
			return c.False
		}
	}
	if a.op == OpConst {
		switch b.op {
		case OpIte:
			x, y := b.args[1], b.args[2]
			if x.op == OpConst || y.op == OpConst {
				return c.Ite(b.args[0], c.Eq(a, x), c.Eq(a, y))
			}
		case OpZExt:
			iw := b.args[0].w
			if a.v > mask(iw) {
				return c.False
			}
			return c.Eq(c.Const(iw, a.v), b.args[0])
		case OpSExt:
			iw := b.args[0].w
			if uint64(sx(a.v&mask(iw), iw))&mask(a.w) != a.v {
				return c.False
			}
			return c.Eq(c.Const(iw, a.v), b.args[0])
		case OpAdd:
			if b.args[0].op == OpConst {
				return c.Eq(c.Const(a.w, a.v-b.args[0].v), b.args[1])
			}
		case OpBXor:
			if b.args[0].op == OpConst {
				return c.Eq(c.Const(a.w, a.v^b.args[0].v), b.args[1])
			}
		case OpConcat:
			lo := b.args[1].w
			return c.And(c.Eq(c.Const(b.args[0].w, a.v>>lo), b.args[0]), c.Eq(c.Const(lo, a.v), b.args[1]))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, "", a, b)
}

// EqNF builds an equality without folding syntactically equal operands, so
// that an obligation stays visible to the solver.
func (c *Ctx) urange(a *Term) (lo, hi uint64) {
	switch a.op {
	case OpConst:
		return a.v, a.v
	case OpZExt:
		return c.urange(a.args[0])
	case OpIte:
		l1, h1 := c.urange(a.args[1])
		l2, h2 := c.urange(a.args[2])
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case OpBAnd:
		_, h1 := c.urange(a.args[0])
		_, h2 := c.urange(a.args[1])
		if h2 < h1 {
			h1 = h2
		}
		return 0, h1
	case OpLshr:
		if a.args[1].op == OpConst {
			l, h := c.urange(a.args[0])
			if a.args[1].v >= uint64(a.w) {
				return 0, 0
			}
			return l >> a.args[1].v, h >> a.args[1].v
		}
	case OpConcat:
		l, h := c.urange(a.args[0])
		l2, h2 := c.urange(a.args[1])
		s := a.args[1].w
		return l<<s | l2, h<<s | h2
	case OpURem:
		if a.args[1].op == OpConst && a.args[1].v > 0 {
			return 0, a.args[1].v - 1
		}
	case OpAdd:
		l1, h1 := c.urange(a.args[0])
		l2, h2 := c.urange(a.args[1])
		hs, cr := bits.Add64(h1, h2, 0)
		if cr == 0 && hs <= mask(a.w) {
			return l1 + l2, hs
		}
	case OpMul:
		l1, h1 := c.urange(a.args[0])
		l2, h2 := c.urange(a.args[1])
		hh, hl := bits.Mul64(h1, h2)
		if hh == 0 && hl <= mask(a.w) {
			return l1 * l2, hl
		}
	}
	return 0, mask(a.w)
}

// srange gives a signed range.
func (c *Ctx) srange(a *Term) (lo, hi int64) {
	if a.w == 0 {
		return 0, 1
	}
	min, max := sx(uint64(1)<<(a.w-1), a.w), int64(mask(a.w)>>1)
	switch a.op {
	case OpConst:
		v := sx(a.v, a.w)
		return v, v
	case OpSExt:
		return c.srange(a.args[0])
	case OpIte:
		l1, h1 := c.srange(a.args[1])
		l2, h2 := c.srange(a.args[2])
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case OpAdd:
		l1, h1 := c.srange(a.args[0])
		l2, h2 := c.srange(a.args[1])
		if a.w <= 63 || (l1 > math.MinInt64/2 && l2 > math.MinInt64/2 && h1 < math.MaxInt64/2 && h2 < math.MaxInt64/2) {
			l, h := l1+l2, h1+h2
			if l >= min && h <= max {
				return l, h
			}
		}
	case OpNeg:
		l1, h1 := c.srange(a.args[0])
		if l1 > min {
			return -h1, -l1
		}
	case OpConcat:
		if a.args[1].op == OpConst && a.args[1].v == 0 {
			l1, h1 := c.srange(a.args[0])
			return l1 << a.args[1].w, h1 << a.args[1].w
		}
	}
	l, h := c.urange(a)
	if h <= uint64(max) {
		return int64(l), int64(h)
	}
	return min, max
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.v < b.v)
	}
	al, ah := c.urange(a)
	bl, bh := c.urange(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if t := c.iteCmp(c.Ult, a, b); t != nil {
		return t
	}
	return c.mk(OpUlt, 0, 0, "", a, b)
}
func (c *Ctx) iteCmp(f func(a, b *Term) *Term, a, b *Term) *Term {
	if a.op == OpIte && b.op == OpConst && a.args[1].op == OpConst && a.args[2].op == OpConst {
		return c.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if b.op == OpIte && a.op == OpConst && b.args[1].op == OpConst && b.args[2].op == OpConst {
		return c.Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	return nil
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(sx(a.v, a.w) < sx(b.v, b.w))
	}
	al, ah := c.srange(a)
	bl, bh := c.srange(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if t := c.iteCmp(c.Slt, a, b); t != nil {
		return t
	}
	return c.mk(OpSlt, 0, 0, "", a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Add(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, a.v+b.v)
	}
	if b.op == OpConst {
		a, b = b, a
	}
	if a.op == OpConst {
		if a.v == 0 {
			return b
		}
		if b.op == OpAdd && b.args[0].op == OpConst {
			return c.Add(c.Const(a.w, a.v+b.args[0].v), b.args[1])
		}
		if b.op == OpIte && b.args[1].op == OpConst && b.args[2].op == OpConst {
			return c.Ite(b.args[0], c.Add(a, b.args[1]), c.Add(a, b.args[2]))
		}
		return c.mk(OpAdd, a.w, 0, "", a, b)
	}
	if a.op == OpAdd && a.args[0].op == OpConst {
		return c.Add(a.args[0], c.Add(a.args[1], b))
	}
	if b.op == OpAdd && b.args[0].op == OpConst {
		return c.Add(b.args[0], c.Add(a, b.args[1]))
	}
	if a.op == OpNeg && a.args[0] == b || b.op == OpNeg && b.args[0] == a {
		return c.Const(a.w, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAdd, a.w, 0, "", a, b)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	return c.Add(a, c.Neg(b))
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(a.w, -a.v)
	}
	if a.op == OpNeg {
		return a.args[0]
	}
	if a.op == OpAdd && a.args[0].op == OpConst {
		return c.Add(c.Const(a.w, -a.args[0].v), c.Neg(a.args[1]))
	}
	return c.mk(OpNeg, a.w, 0, "", a)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, a.v*b.v)
	}
	if b.op == OpConst {
		a, b = b, a
	}
	if a.op == OpConst {
		if a.v == 0 {
			return a
		}
		if a.v == 1 {
			return b
		}
		if a.v == mask(a.w) {
			return c.Neg(b)
		}
		if bits.OnesCount64(a.v) == 1 {
			return c.Shl(b, c.Const(a.w, uint64(bits.TrailingZeros64(a.v))))
		}
		if b.op == OpIte && b.args[1].op == OpConst && b.args[2].op == OpConst {
			return c.Ite(b.args[0], c.Mul(a, b.args[1]), c.Mul(a, b.args[2]))
		}
		return c.mk(OpMul, a.w, 0, "", a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpMul, a.w, 0, "", a, b)
}
func (c *Ctx) DivRem(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.v != 0 {
		x, y := sx(a.v, a.w), sx(b.v, b.w)
		switch op {
		case OpUDiv:
			return c.Const(a.w, a.v/b.v)
		case OpURem:
			return c.Const(a.w, a.v%b.v)
		case OpSDiv:
			if y == -1 {
				return c.Const(a.w, uint64(-x))
			}
			return c.Const(a.w, uint64(x/y))
		case OpSRem:
			if y == -1 {
				return c.Const(a.w, 0)
			}
			return c.Const(a.w, uint64(x%y))
		}
	}
	if b.op == OpConst && b.v == 1 {
		if op == OpUDiv || op == OpSDiv {
			return a
		}
		return c.Const(a.w, 0)
	}
	if b.op == OpConst && bits.OnesCount64(b.v) == 1 {
		if op == OpUDiv {
			return c.Lshr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.v))))
		}
		if op == OpURem {
			return c.BAnd(a, c.Const(a.w, b.v-1))
		}
		if lo, _ := c.srange(a); lo >= 0 && sx(b.v, b.w) > 0 {
			if op == OpSDiv {
				return c.Lshr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.v))))
			}
			return c.BAnd(a, c.Const(a.w, b.v-1))
		}
	}
	if (op == OpSDiv || op == OpSRem) && a.op == OpNeg {
		if lo, _ := c.srange(a.args[0]); lo > sx(1<<(a.w-1), a.w) {
			return c.Neg(c.DivRem(op, a.args[0], b))
		}
	}
	return c.mk(op, a.w, 0, "", a, b)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, a.v&b.v)
	}
	if a == b {
		return a
	}
	if b.op == OpConst {
		a, b = b, a
	}
	if a.op == OpConst {
		if a.v == 0 {
			return a
		}
		if a.v == mask(a.w) {
			return b
		}
		if (a.w == 32 || a.w == 64) && a.v == mask(a.w)>>1 && b.flt {
			return c.FAbs(b)
		}
		if b.op == OpBAnd && b.args[0].op == OpConst {
			return c.BAnd(c.Const(a.w, a.v&b.args[0].v), b.args[1])
		}
		// low mask -> extract + zext
		if n := bits.TrailingZeros64(^a.v); n < int(a.w) && a.v == mask(uint8(n)) {
			return c.ZExt(c.Extract(b, 0, uint8(n)), a.w)
		}
		// mask hits only known zero bits
		if _, h := c.urange(b); h&a.v == h && isLowMaskCover(h, a.v) {
			return b
		}
		// top bits mask: (x & 1..10..0)
		if n := bits.TrailingZeros64(a.v); a.v == mask(a.w)&^mask(uint8(n)) && n > 0 {
			return c.Concat(c.Extract(b, uint8(n), a.w-uint8(n)), c.Const(uint8(n), 0))
		}
		return c.mk(OpBAnd, a.w, 0, "", a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBAnd, a.w, 0, "", a, b)
}

func isLowMaskCover(h, m uint64) bool {
	n := bits.Len64(h)
	return m&mask64(n) == mask64(n)
}
func mask64(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, a.v|b.v)
	}
	if a == b {
		return a
	}
	if b.op == OpConst {
		a, b = b, a
	}
	if a.op == OpConst {
		if a.v == 0 {
			return b
		}
		if a.v == mask(a.w) {
			return a
		}
		return c.mk(OpBOr, a.w, 0, "", a, b)
	}
	if t := c.orConcat(a, b); t != nil {
		return t
	}
	if t := c.orConcat(b, a); t != nil {
		return t
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBOr, a.w, 0, "", a, b)
}

// orConcat recognises (hi:0..0) | zext(lo) = hi:lo
func (c *Ctx) orConcat(a, b *Term) *Term {
	// number of trailing zero bits of a, high zero bits of b
	if a.op == OpConcat && a.args[1].op == OpConst && a.args[1].v == 0 {
		n := a.args[1].w
		if b.op == OpZExt && b.args[0].w <= n {
			return c.Concat(a.args[0], c.ZExt(b.args[0], n))
		}
		if b.op == OpConcat && b.args[0].op == OpConst && b.args[0].v == 0 && b.args[1].w <= n {
			return c.Concat(a.args[0], c.ZExt(b.args[1], n))
		}
	}
	// nested: concat(0s, concat(x, 0s)) | zext
	if a.op == OpZExt && a.args[0].op == OpConcat && a.args[0].args[1].op == OpConst && a.args[0].args[1].v == 0 {
		n := a.args[0].args[1].w
		if b.op == OpZExt && b.args[0].w <= n {
			return c.ZExt(c.Concat(a.args[0].args[0], c.ZExt(b.args[0], n)), a.w)
		}
	}
	return nil
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, a.v^b.v)
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.op == OpConst {
		a, b = b, a
	}
	if a.op == OpConst {
		if a.v == 0 {
			return b
		}
		if a.v == mask(a.w) {
			return c.BNot(b)
		}
		if (a.w == 32 || a.w == 64) && a.v == uint64(1)<<(a.w-1) && b.flt {
			return c.FNeg(b)
		}
		if b.op == OpBXor && b.args[0].op == OpConst {
			return c.BXor(c.Const(a.w, a.v^b.args[0].v), b.args[1])
		}
		return c.mk(OpBXor, a.w, 0, "", a, b)
	}
	if a.op == OpBXor && a.args[0].op == OpConst {
		return c.BXor(a.args[0], c.BXor(a.args[1], b))
	}
	if b.op == OpBXor && b.args[0].op == OpConst {
		return c.BXor(b.args[0], c.BXor(a, b.args[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBXor, a.w, 0, "", a, b)
}
func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(a.w, ^a.v)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	return c.mk(OpBNot, a.w, 0, "", a)
}

func (c *Ctx) Shl(a, b *Term) *Term {
	if b.op == OpConst {
		n := b.v
		if n == 0 {
			return a
		}
		if n >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		return c.Concat(c.Extract(a, 0, a.w-uint8(n)), c.Const(uint8(n), 0))
	}
	return c.mk(OpShl, a.w, 0, "", a, b)
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.op == OpConst {
		n := b.v
		if n == 0 {
			return a
		}
		if n >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		return c.ZExt(c.Extract(a, uint8(n), a.w-uint8(n)), a.w)
	}
	return c.mk(OpLshr, a.w, 0, "", a, b)
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if b.op == OpConst {
		n := b.v
		if n == 0 {
			return a
		}
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		return c.SExt(c.Extract(a, uint8(n), a.w-uint8(n)), a.w)
	}
	return c.mk(OpAshr, a.w, 0, "", a, b)
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	if hi.w == 0 || lo.w == 0 {
		panic("concat of bool")
	}
	w := hi.w + lo.w
	if hi.op == OpConst && lo.op == OpConst {
		return c.Const(w, hi.v<<lo.w|lo.v)
	}
	if hi.op == OpConst && hi.v == 0 {
		return c.ZExt(lo, w)
	}
	if hi.op == OpNeg && lo.op == OpConst && lo.v == 0 {
		return c.Neg(c.Concat(hi.args[0], lo))
	}
	// adjacent extracts
	if hi.op == OpExtract && lo.op == OpExtract && hi.args[0] == lo.args[0] && hi.v == lo.v+uint64(lo.w) {
		return c.Extract(hi.args[0], uint8(lo.v), w)
	}
	if hi.op == OpExtract && lo.op != OpExtract && hi.args[0] == lo && hi.v == uint64(lo.w) {
		// hi extract above lo as whole? (lo is the full term) impossible
	}
	if lo.op == OpConcat && hi.op == OpExtract && lo.args[0].op == OpExtract &&
		hi.args[0] == lo.args[0].args[0] && hi.v == lo.args[0].v+uint64(lo.args[0].w) {
		return c.Concat(c.Extract(hi.args[0], uint8(lo.args[0].v), hi.w+lo.args[0].w), lo.args[1])
	}
	// normalise to right-nested
	if hi.op == OpConcat {
		return c.Concat(hi.args[0], c.Concat(hi.args[1], lo))
	}
	return c.mk(OpConcat, w, 0, "", hi, lo)
}

func (c *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if int(lo)+int(w) > int(a.w) {
		panic("extract range")
	}
	switch a.op {
	case OpConst:
		return c.Const(w, a.v>>lo)
	case OpExtract:
		return c.Extract(a.args[0], uint8(a.v)+lo, w)
	case OpConcat:
		l := a.args[1].w
		if lo >= l {
			return c.Extract(a.args[0], lo-l, w)
		}
		if lo+w <= l {
			return c.Extract(a.args[1], lo, w)
		}
		return c.Concat(c.Extract(a.args[0], 0, lo+w-l), c.Extract(a.args[1], lo, l-lo))
	case OpZExt:
		iw := a.args[0].w
		if lo >= iw {
			return c.Const(w, 0)
		}
		if lo+w <= iw {
			return c.Extract(a.args[0], lo, w)
		}
		return c.ZExt(c.Extract(a.args[0], lo, iw-lo), w)
	case OpSExt:
		iw := a.args[0].w
		if lo+w <= iw {
			return c.Extract(a.args[0], lo, w)
		}
		if lo < iw {
			return c.SExt(c.Extract(a.args[0], lo, iw-lo), w)
		}
		return c.SExt(c.Extract(a.args[0], iw-1, 1), w)
	case OpBXor, OpBAnd, OpBOr:
		x, y := c.Extract(a.args[0], lo, w), c.Extract(a.args[1], lo, w)
		switch a.op {
		case OpBXor:
			return c.BXor(x, y)
		case OpBAnd:
			return c.BAnd(x, y)
		}
		return c.BOr(x, y)
	case OpBNot:
		return c.BNot(c.Extract(a.args[0], lo, w))
	case OpIte:
		if a.args[1].op == OpConst || a.args[2].op == OpConst {
			return c.Ite(a.args[0], c.Extract(a.args[1], lo, w), c.Extract(a.args[2], lo, w))
		}
	case OpAdd:
		if lo == 0 {
			return c.Add(c.Extract(a.args[0], 0, w), c.Extract(a.args[1], 0, w))
		}
	case OpNeg:
		if lo == 0 {
			return c.Neg(c.Extract(a.args[0], 0, w))
		}
	case OpMul:
		if lo == 0 {
			return c.Mul(c.Extract(a.args[0], 0, w), c.Extract(a.args[1], 0, w))
		}
	}
	return c.mk(OpExtract, w, uint64(lo), "", a)
}
func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext")
	}
	if a.op == OpConst {
		return c.Const(w, a.v)
	}
	if a.op == OpZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
		return c.Ite(a.args[0], c.Const(w, a.args[1].v), c.Const(w, a.args[2].v))
	}
	return c.mk(OpZExt, w, 0, "", a)
}
func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("sext")
	}
	if a.op == OpConst {
		return c.Const(w, uint64(sx(a.v, a.w)))
	}
	if a.op == OpSExt {
		return c.SExt(a.args[0], w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
		return c.Ite(a.args[0], c.SExt(a.args[1], w), c.SExt(a.args[2], w))
	}
	return c.mk(OpSExt, w, 0, "", a)
}

// BoolBV converts a boolean to a bit-vector of width w holding 0 or 1.
func (c *Ctx) BoolBV(b *Term, w uint8) *Term { return c.Ite(b, c.Const(w, 1), c.Const(w, 0)) }

// ---- floating point ----

func f32of(t *Term) float32 { return math.Float32frombits(uint32(t.v)) }
func f64of(t *Term) float64 { return math.Float64frombits(t.v) }
func (c *Ctx) F32(f float32) *Term {
	return c.Const(32, uint64(math.Float32bits(f)))
}
func (c *Ctx) F64(f float64) *Term { return c.Const(64, math.Float64bits(f)) }
func (c *Ctx) fconst(w uint8, f32 float32, f64 float64) *Term {
	if w == 32 {
		return c.F32(f32)
	}
	return c.F64(f64)
}
func signBit(w uint8) uint64 { return uint64(1) << (w - 1) }

func isNaNBits(w uint8, v uint64) bool {
	if w == 32 {
		return v&0x7fffffff > 0x7f800000
	}
	return v&0x7fffffffffffffff > 0x7ff0000000000000
}

func (c *Ctx) FNeg(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(a.w, a.v^signBit(a.w))
	}
	if a.op == OpFNeg {
		return a.args[0]
	}
	if a.op == OpIte && (a.args[1].op == OpConst || a.args[2].op == OpConst) {
		return c.Ite(a.args[0], c.FNeg(a.args[1]), c.FNeg(a.args[2]))
	}
	return c.mk(OpFNeg, a.w, 0, "", a)
}
func (c *Ctx) FAbs(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(a.w, a.v&^signBit(a.w))
	}
	if a.op == OpFNeg || a.op == OpFAbs {
		return c.FAbs(a.args[0])
	}
	return c.mk(OpFAbs, a.w, 0, "", a)
}
func (c *Ctx) FAdd(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		if a.w == 32 {
			return c.F32(f32of(a) + f32of(b))
		}
		return c.F64(f64of(a) + f64of(b))
	}
	// x + (-0) = x
	if a.op == OpConst && a.v == signBit(a.w) {
		return b
	}
	if b.op == OpConst && b.v == signBit(b.w) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpFAdd, a.w, 0, "", a, b)
}
func (c *Ctx) FSub(a, b *Term) *Term { return c.FAdd(a, c.FNeg(b)) }
func (c *Ctx) FMul(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		if a.w == 32 {
			return c.F32(f32of(a) * f32of(b))
		}
		return c.F64(f64of(a) * f64of(b))
	}
	neg := false
	if a.op == OpFNeg {
		a, neg = a.args[0], !neg
	}
	if b.op == OpFNeg {
		b, neg = b.args[0], !neg
	}
	if b.op == OpConst {
		a, b = b, a
	}
	if a.op == OpConst && a.v&signBit(a.w) != 0 && !isNaNBits(a.w, a.v) {
		a, neg = c.FNeg(a), !neg
	}
	var r *Term
	if a.op == OpConst && a == c.fconst(a.w, 1, 1) {
		r = b
	} else {
		if a.id > b.id {
			a, b = b, a
		}
		r = c.mk(OpFMul, a.w, 0, "", a, b)
	}
	if neg {
		r = c.FNeg(r)
	}
	return r
}
func (c *Ctx) FDiv(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		if a.w == 32 {
			return c.F32(f32of(a) / f32of(b))
		}
		return c.F64(f64of(a) / f64of(b))
	}
	neg := false
	if a.op == OpFNeg {
		a, neg = a.args[0], !neg
	}
	if b.op == OpFNeg {
		b, neg = b.args[0], !neg
	}
	if b.op == OpConst {
		// division by a power of two is multiplication by its inverse
		if b.w == 32 {
			f := f32of(b)
			if fr, e := math.Frexp(float64(f)); math.Abs(fr) == 0.5 && e > -120 && e < 120 {
				r := c.FMul(a, c.F32(1/f))
				if neg {
					r = c.FNeg(r)
				}
				return r
			}
		} else {
			f := f64of(b)
			if fr, e := math.Frexp(f); math.Abs(fr) == 0.5 && e > -1000 && e < 1000 {
				r := c.FMul(a, c.F64(1/f))
				if neg {
					r = c.FNeg(r)
				}
				return r
			}
		}
	}
	r := c.mk(OpFDiv, a.w, 0, "", a, b)
	if neg {
		r = c.FNeg(r)
	}
	return r
}
func (c *Ctx) FSqrt(a *Term) *Term {
	if a.op == OpConst {
		if a.w == 32 {
			return c.F32(float32(math.Sqrt(float64(f32of(a)))))
		}
		return c.F64(math.Sqrt(f64of(a)))
	}
	return c.mk(OpFSqrt, a.w, 0, "", a)
}
func fval(t *Term) float64 {
	if t.w == 32 {
		return float64(f32of(t))
	}
	return f64of(t)
}
func (c *Ctx) FLt(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(fval(a) < fval(b))
	}
	if a == b {
		return c.False
	}
	if a.op == OpFNeg && b.op == OpFNeg {
		return c.FLt(b.args[0], a.args[0])
	}
	if a.op == OpFNeg && b.op == OpConst {
		return c.FLt(c.FNeg(b), a.args[0])
	}
	if b.op == OpFNeg && a.op == OpConst {
		return c.FLt(b.args[0], c.FNeg(a))
	}
	return c.mk(OpFLt, 0, 0, "", a, b)
}
func (c *Ctx) FLe(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(fval(a) <= fval(b))
	}
	if a.op == OpFNeg && b.op == OpFNeg {
		return c.FLe(b.args[0], a.args[0])
	}
	if a.op == OpFNeg && b.op == OpConst {
		return c.FLe(c.FNeg(b), a.args[0])
	}
	if b.op == OpFNeg && a.op == OpConst {
		return c.FLe(b.args[0], c.FNeg(a))
	}
	return c.mk(OpFLe, 0, 0, "", a, b)
}
func (c *Ctx) FEq(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(fval(a) == fval(b))
	}
	if a == b {
		return c.Not(c.FIsNaN(a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpFEq, 0, 0, "", a, b)
}
func (c *Ctx) FIsNaN(a *Term) *Term {
	if a.op == OpConst {
		return c.Bool(isNaNBits(a.w, a.v))
	}
	if a.op == OpFNeg || a.op == OpFAbs {
		return c.FIsNaN(a.args[0])
	}
	if a.op == OpSIToF || a.op == OpUIToF {
		return c.False
	}
	return c.mk(OpFIsNaN, 0, 0, "", a)
}
func (c *Ctx) FCvt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		if w == 32 {
			return c.F32(float32(f64of(a)))
		}
		return c.F64(float64(f32of(a)))
	}
	if a.op == OpFNeg {
		return c.FNeg(c.FCvt(a.args[0], w))
	}
	if w == 32 && a.op == OpFCvt && a.args[0].w == 32 {
		return a.args[0]
	}
	if a.op == OpSIToF && a.w == 32 {
		if a.args[0].op == OpSExt && a.args[0].args[0].w <= 24 || a.args[0].w <= 24 {
			return c.SIToF(a.args[0], w)
		}
	}
	if a.op == OpSIToF && a.w == 64 && a.args[0].w <= 53 {
		return c.SIToF(a.args[0], w)
	}
	return c.mk(OpFCvt, w, 0, "", a)
}
func (c *Ctx) FToSI(a *Term, w uint8, round bool) *Term {
	if a.op == OpConst {
		return c.Const(w, evalFToSI(a.w, a.v, w, round))
	}
	op := OpFToSI
	if round {
		op = OpFToSIR
	}
	return c.mk(op, w, 0, "", a)
}
func evalFToSI(fw uint8, v uint64, w uint8, round bool) uint64 {
	var f float64
	if fw == 32 {
		f = float64(math.Float32frombits(uint32(v)))
	} else {
		f = math.Float64frombits(v)
	}
	if round {
		f = math.RoundToEven(f)
	} else {
		f = math.Trunc(f)
	}
	if w == 32 {
		if f >= -2147483648 && f < 2147483648 {
			return uint64(int64(f)) & mask(32)
		}
		return 0x80000000
	}
	if f >= -9223372036854775808 && f < 9223372036854775808 {
		return uint64(int64(f))
	}
	return 0x8000000000000000
}

// SIToF converts a signed integer to a float of width w.
func (c *Ctx) SIToF(a *Term, w uint8) *Term {
	if a.op == OpConst {
		if w == 32 {
			return c.F32(float32(sx(a.v, a.w)))
		}
		return c.F64(float64(sx(a.v, a.w)))
	}
	// canonical: strip extensions so that equal integers give equal terms
	for {
		if a.op == OpSExt {
			a = a.args[0]
			continue
		}
		if a.op == OpZExt {
			// keep one zero bit for the sign
			if a.w > a.args[0].w+1 {
				a = c.ZExt(a.args[0], a.args[0].w+1)
			}
		}
		if lo, hi := c.srange(a); lo <= hi {
			if lo < 0 {
				lo = ^lo
			}
			if hi < lo {
				hi = lo
			}
			if k := uint8(bits.Len64(uint64(hi))) + 1; k < a.w {
				a = c.Extract(a, 0, k)
				continue
			}
		}
		break
	}
	return c.mk(OpSIToF, w, 0, "", a)
}
func (c *Ctx) UIToF(a *Term, w uint8) *Term {
	if a.w < 64 {
		return c.SIToF(c.ZExt(a, a.w+1), w)
	}
	if a.op == OpConst {
		if w == 32 {
			return c.F32(float32(a.v))
		}
		return c.F64(float64(a.v))
	}
	if _, h := c.urange(a); h < 1<<63 {
		return c.SIToF(a, w)
	}
	return c.mk(OpUIToF, w, 0, "", a)
}
func (c *Ctx) FRound(a *Term, mode uint64) *Term {
	if a.op == OpConst {
		f := fval(a)
		var r float64
		switch mode {
		case 0:
			r = math.RoundToEven(f)
		case 1:
			r = math.Floor(f)
		case 2:
			r = math.Ceil(f)
		case 3:
			r = math.Trunc(f)
		}
		return c.fconst(a.w, float32(r), r)
	}
	if a.op == OpSIToF || a.op == OpUIToF {
		return a
	}
	// floor(float64(x32)) : do it at the narrow width
	if a.op == OpFCvt && a.w == 64 && a.args[0].w == 32 {
		return c.FCvt(c.FRound(a.args[0], mode), 64)
	}
	return c.mk(OpFRound, a.w, mode, "", a)
}

var ufEval = map[string]func(x ...float64) float64{
	"sin":  func(x ...float64) float64 { return math.Sin(x[0]) },
	"cos":  func(x ...float64) float64 { return math.Cos(x[0]) },
	"tan":  func(x ...float64) float64 { return math.Tan(x[0]) },
	"atan": func(x ...float64) float64 { return math.Atan(x[0]) },
	"atan2": func(x ...float64) float64 {
		return math.Atan2(x[0], x[1])
	},
	"pow":   func(x ...float64) float64 { return math.Pow(x[0], x[1]) },
	"exp":   func(x ...float64) float64 { return math.Exp(x[0]) },
	"log":   func(x ...float64) float64 { return math.Log(x[0]) },
	"log10": func(x ...float64) float64 { return math.Log10(x[0]) },
	"log2":  func(x ...float64) float64 { return math.Log2(x[0]) },
	"sinh":  func(x ...float64) float64 { return math.Sinh(x[0]) },
	"cosh":  func(x ...float64) float64 { return math.Cosh(x[0]) },
	"hypot": func(x ...float64) float64 { return math.Hypot(x[0], x[1]) },
	"mod":   func(x ...float64) float64 { return math.Mod(x[0], x[1]) },
}

func (c *Ctx) UF(name string, w uint8, args ...*Term) *Term {
	all := w == 64
	for _, a := range args {
		if a.op != OpConst || a.w != 64 {
			all = false
		}
	}
	if f := ufEval[name]; f != nil && all {
		x := make([]float64, len(args))
		for i, a := range args {
			x[i] = f64of(a)
		}
		return c.F64(f(x...))
	}
	return c.mk(OpUF, w, 0, name, args...)
}

// ---- evaluation ----

type Model map[string]uint64

type Evaluator struct {
	c    *Ctx
	m    Model
	memo map[int32]uint64
	Def  func(t *Term) uint64
	Tab  map[string]*Table
}

func NewEval(c *Ctx, m Model) *Evaluator {
	return &Evaluator{c: c, m: m, memo: map[int32]uint64{}}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *Evaluator) Eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.v
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	v := e.eval(t) & mask(t.w)
	e.memo[t.id] = v
	return v
}

func (e *Evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OpVar:
		if v, ok := e.m[t.name]; ok {
			return v
		}
		if e.Def != nil {
			return e.Def(t)
		}
		return 0
	case OpAnd:
		if e.Eval(t.args[0]) == 0 {
			return 0
		}
		return e.Eval(t.args[1])
	case OpOr:
		if e.Eval(t.args[0]) == 1 {
			return 1
		}
		return e.Eval(t.args[1])
	case OpIte:
		if e.Eval(t.args[0]) == 1 {
			return e.Eval(t.args[1])
		}
		return e.Eval(t.args[2])
	}
	x := make([]uint64, len(t.args))
	for i, a := range t.args {
		x[i] = e.Eval(a)
	}
	var aw uint8
	if len(t.args) > 0 {
		aw = t.args[0].w
	}
	c := e.c
	k := func(i int) *Term { return &Term{op: OpConst, w: t.args[i].w, v: x[i]} }
	_ = c
	switch t.op {
	case OpNot:
		return 1 - x[0]
	case OpEq:
		return b2u(x[0] == x[1])
	case OpUlt:
		return b2u(x[0] < x[1])
	case OpUle:
		return b2u(x[0] <= x[1])
	case OpSlt:
		return b2u(sx(x[0], aw) < sx(x[1], aw))
	case OpSle:
		return b2u(sx(x[0], aw) <= sx(x[1], aw))
	case OpAdd:
		return x[0] + x[1]
	case OpSub:
		return x[0] - x[1]
	case OpMul:
		return x[0] * x[1]
	case OpUDiv:
		if x[1] == 0 {
			return ^uint64(0)
		}
		return x[0] / x[1]
	case OpURem:
		if x[1] == 0 {
			return x[0]
		}
		return x[0] % x[1]
	case OpSDiv:
		a, b := sx(x[0], aw), sx(x[1], aw)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return ^uint64(0)
		}
		if b == -1 {
			return uint64(-a)
		}
		return uint64(a / b)
	case OpSRem:
		a, b := sx(x[0], aw), sx(x[1], aw)
		if b == 0 {
			return x[0]
		}
		if b == -1 {
			return 0
		}
		return uint64(a % b)
	case OpBAnd:
		return x[0] & x[1]
	case OpBOr:
		return x[0] | x[1]
	case OpBXor:
		return x[0] ^ x[1]
	case OpBNot:
		return ^x[0]
	case OpNeg:
		return -x[0]
	case OpShl:
		if x[1] >= uint64(aw) {
			return 0
		}
		return x[0] << x[1]
	case OpLshr:
		if x[1] >= uint64(aw) {
			return 0
		}
		return x[0] >> x[1]
	case OpAshr:
		n := x[1]
		if n >= uint64(aw) {
			n = uint64(aw) - 1
		}
		return uint64(sx(x[0], aw) >> n)
	case OpConcat:
		return x[0]<<t.args[1].w | x[1]
	case OpExtract:
		return x[0] >> t.v
	case OpZExt:
		return x[0]
	case OpSExt:
		return uint64(sx(x[0], aw))
	case OpFNeg:
		return x[0] ^ signBit(aw)
	case OpFAbs:
		return x[0] &^ signBit(aw)
	case OpFIsNaN:
		return b2u(isNaNBits(aw, x[0]))
	case OpFLt:
		return b2u(fval(k(0)) < fval(k(1)))
	case OpFLe:
		return b2u(fval(k(0)) <= fval(k(1)))
	case OpFEq:
		return b2u(fval(k(0)) == fval(k(1)))
	case OpFAdd, OpFMul, OpFDiv:
		if t.w == 32 {
			a, b := math.Float32frombits(uint32(x[0])), math.Float32frombits(uint32(x[1]))
			var r float32
			switch t.op {
			case OpFAdd:
				r = a + b
			case OpFMul:
				r = a * b
			case OpFDiv:
				r = a / b
			}
			return uint64(math.Float32bits(r))
		}
		a, b := math.Float64frombits(x[0]), math.Float64frombits(x[1])
		var r float64
		switch t.op {
		case OpFAdd:
			r = a + b
		case OpFMul:
			r = a * b
		case OpFDiv:
			r = a / b
		}
		return math.Float64bits(r)
	case OpFSqrt:
		if t.w == 32 {
			return uint64(math.Float32bits(float32(math.Sqrt(fval(k(0))))))
		}
		return math.Float64bits(math.Sqrt(fval(k(0))))
	case OpFCvt:
		if t.w == 32 {
			return uint64(math.Float32bits(float32(math.Float64frombits(x[0]))))
		}
		return math.Float64bits(float64(math.Float32frombits(uint32(x[0]))))
	case OpFToSI:
		return evalFToSI(aw, x[0], t.w, false)
	case OpFToSIR:
		return evalFToSI(aw, x[0], t.w, true)
	case OpSIToF:
		if t.w == 32 {
			return uint64(math.Float32bits(float32(sx(x[0], aw))))
		}
		return math.Float64bits(float64(sx(x[0], aw)))
	case OpUIToF:
		if t.w == 32 {
			return uint64(math.Float32bits(float32(x[0])))
		}
		return math.Float64bits(float64(x[0]))
	case OpFRound:
		f := fval(k(0))
		var r float64
		switch t.v {
		case 0:
			r = math.RoundToEven(f)
		case 1:
			r = math.Floor(f)
		case 2:
			r = math.Ceil(f)
		case 3:
			r = math.Trunc(f)
		}
		if t.w == 32 {
			return uint64(math.Float32bits(float32(r)))
		}
		return math.Float64bits(r)
	case OpUF:
		if tb := e.Tab[t.name]; tb != nil {
			if x[0] < uint64(len(tb.vals)) {
				return tb.vals[x[0]]
			}
			return 0
		}
		if t.name == "fma" {
			return math.Float64bits(math.FMA(fval(k(0)), fval(k(1)), fval(k(2))))
		}
		if t.name == "fma32" {
			return uint64(math.Float32bits(float32(math.FMA(fval(k(0)), fval(k(1)), fval(k(2))))))
		}
		if f := ufEval[t.name]; f != nil && t.w == 64 {
			y := make([]float64, len(x))
			for i := range x {
				y[i] = fval(k(i))
			}
			return math.Float64bits(f(y...))
		}
		if strings.HasPrefix(t.name, "pfok") || strings.HasPrefix(t.name, "pfval") {
			var nb, n int
			fmt.Sscanf(strings.TrimLeft(t.name, "pfokval"), "%d_%d", &nb, &n)
			var text []byte
			for i := 0; i < n; i++ {
				text = append(text, byte(x[i/8]>>(8*uint(i%8))))
			}
			v, err := strconv.ParseFloat(string(text), nb)
			if t.name[2] == 'v' {
				return math.Float64bits(v)
			}
			if err == nil {
				return 1
			}
			return 0
		}
		h := uint64(1469598103934665603)
		for _, ch := range t.name {
			h = (h ^ uint64(ch)) * 1099511628211
		}
		for _, v := range x {
			h = (h ^ v) * 1099511628211
		}
		return h
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}

// str prints a term down to a depth, for diagnosis.
func (t *Term) str(d int) string {
	if t.op == OpConst {
		return fmt.Sprintf("%#x", t.v)
	}
	if t.op == OpVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := fmt.Sprintf("(op%d/%d", t.op, t.w)
	for _, a := range t.args {
		s += " " + a.str(d-1)
	}
	return s + ")"
}
