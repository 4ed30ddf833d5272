package main

import (
	"fmt"
	"math"
)

// Float intervals.  frange bounds the value of a float term on a path, from
// comparisons with constants among the path condition and the monotonicity
// of correctly rounded operations.  nan reports that the term may be a NaN;
// all reports that it certainly is one.
type frange struct {
	lo, hi   float64
	nan, all bool
}

func (ex *Exec) frangeOf(st *State, t *Term) frange {
	k := newFrangeCtx(ex)
	for p := st.pc; p != nil; p = p.up {
		k.fact(p.t, true)
	}
	return k.of(t)
}

func newFrangeCtx(ex *Exec) *frangeCtx {
	return &frangeCtx{ex: ex, facts: map[*Term]*frange{}, memo: map[*Term]frange{}, ints: map[linKey]*[2]int64{}, known: map[int32]bool{}}
}

type frangeCtx struct {
	ex    *Exec
	facts map[*Term]*frange
	memo  map[*Term]frange
	ints  map[linKey]*[2]int64
	known map[int32]bool
}

func (k *frangeCtx) get(t *Term) *frange {
	f := k.facts[t]
	if f == nil {
		f = &frange{lo: math.Inf(-1), hi: math.Inf(1), nan: true}
		k.facts[t] = f
	}
	return f
}

func (k *frangeCtx) fact(p *Term, pos bool) {
	k.known[p.id] = pos
	switch p.op {
	case OpSlt, OpSle, OpUlt, OpUle, OpEq:
		k.intFact(p, pos)
	case OpNot:
		k.fact(p.args[0], !pos)
	case OpAnd:
		if pos {
			k.fact(p.args[0], true)
			k.fact(p.args[1], true)
		}
	case OpOr:
		if !pos {
			k.fact(p.args[0], false)
			k.fact(p.args[1], false)
		}
	case OpFIsNaN:
		f := k.get(p.args[0])
		if pos {
			f.all = true
		} else {
			f.nan = false
		}
	case OpFLt, OpFLe, OpFEq:
		a, b := p.args[0], p.args[1]
		if a.op == OpConst && b.op == OpConst || a.op != OpConst && b.op != OpConst {
			if pos && a != b {
				k.get(a).nan = false
				k.get(b).nan = false
			}
			return
		}
		t, c, left := a, b, true // t op c
		if a.op == OpConst {
			t, c, left = b, a, false
		}
		v := fval(c)
		if math.IsNaN(v) {
			return
		}
		f := k.get(t)
		next := func(up bool) float64 {
			if t.w == 32 {
				if up {
					return float64(math.Nextafter32(float32(v), float32(math.Inf(1))))
				}
				return float64(math.Nextafter32(float32(v), float32(math.Inf(-1))))
			}
			if up {
				return math.Nextafter(v, math.Inf(1))
			}
			return math.Nextafter(v, math.Inf(-1))
		}
		defer func() {
			// widening changes no value
			for t.op == OpFCvt && t.w > t.args[0].w {
				t = t.args[0]
				g := k.get(t)
				g.lo, g.hi = math.Max(g.lo, f.lo), math.Min(g.hi, f.hi)
				g.nan = g.nan && f.nan
			}
		}()
		if pos {
			f.nan = false
			switch {
			case p.op == OpFEq:
				f.lo, f.hi = math.Max(f.lo, v), math.Min(f.hi, v)
			case left && p.op == OpFLe:
				f.hi = math.Min(f.hi, v)
			case left:
				f.hi = math.Min(f.hi, next(false))
			case p.op == OpFLe:
				f.lo = math.Max(f.lo, v)
			default:
				f.lo = math.Max(f.lo, next(true))
			}
			return
		}
		// the opposite holds, unless t is a NaN
		switch {
		case p.op == OpFEq:
		case left && p.op == OpFLe: // not t <= v
			f.lo = math.Max(f.lo, next(true))
		case left: // not t < v
			f.lo = math.Max(f.lo, v)
		case p.op == OpFLe: // not v <= t
			f.hi = math.Min(f.hi, next(false))
		default:
			f.hi = math.Min(f.hi, v)
		}
	}
}

func (k *frangeCtx) of(t *Term) frange {
	if r, ok := k.memo[t]; ok {
		return r
	}
	r := k.calc(t)
	if f := k.facts[t]; f != nil {
		r.lo, r.hi = math.Max(r.lo, f.lo), math.Min(r.hi, f.hi)
		r.nan = r.nan && f.nan
		r.all = r.all || f.all
	}
	if len(k.memo) < 100000 {
		k.memo[t] = r
	}
	return r
}

// linKey names the integer a term stands for: the value of t, signed or not.
type linKey struct {
	t        *Term
	unsigned bool
}

// lin writes an integer term (read as signed) as a key plus an offset.
func (k *frangeCtx) lin(t *Term) (linKey, int64) {
	switch t.op {
	case OpZExt:
		return linKey{t.args[0], true}, 0
	case OpSExt:
		return k.lin(t.args[0])
	case OpAdd:
		for i := 0; i < 2; i++ {
			c := t.args[1-i]
			if c.op != OpConst {
				continue
			}
			l, h := k.ex.c.srange(t)
			l1, h1 := k.ex.c.srange(t.args[i])
			v := sx(c.v, c.w)
			const lim = 1 << 60
			if l1 > -lim && h1 < lim && v > -lim && v < lim && l == l1+v && h == h1+v {
				key, off := k.lin(t.args[i])
				return key, off + v
			}
		}
	}
	return linKey{t, false}, 0
}

func (k *frangeCtx) keyRange(key linKey) (lo, hi int64) {
	l, h := k.ex.c.urange(key.t)
	if key.unsigned {
		lo, hi = 0, 1<<62
	} else {
		lo, hi = k.ex.c.srange(key.t)
	}
	if h <= 1<<62 && (key.unsigned || h <= mask(key.t.w)>>1) {
		lo, hi = maxI(lo, int64(l)), minI(hi, int64(h))
	}
	if f := k.ints[key]; f != nil {
		lo, hi = maxI(lo, f[0]), minI(hi, f[1])
	}
	return
}

// irange is a signed range of an integer term on the path.
func (k *frangeCtx) irange(t *Term) (lo, hi int64) {
	if t.op == OpConst {
		v := sx(t.v, t.w)
		return v, v
	}
	key, off := k.lin(t)
	lo, hi = k.keyRange(key)
	if off != 0 {
		lo, hi = lo+off, hi+off
	}
	const lim = 1 << 61
	in := func(l, h int64) bool { return l >= -lim && h <= lim && l <= h }
	set := func(l, h int64) {
		if m := int64(mask(t.w) >> 1); l >= -m && h <= m {
			lo, hi = maxI(lo, l), minI(hi, h)
		}
	}
	switch t.op {
	case OpAdd:
		l1, h1 := k.irange(t.args[0])
		l2, h2 := k.irange(t.args[1])
		if in(l1, h1) && in(l2, h2) {
			set(l1+l2, h1+h2)
		}
	case OpNeg:
		if l, h := k.irange(t.args[0]); in(l, h) {
			set(-h, -l)
		}
	case OpIte:
		switch k.truth(t.args[0]) {
		case 1:
			l, h := k.irange(t.args[1])
			return maxI(lo, l), minI(hi, h)
		case 0:
			l, h := k.irange(t.args[2])
			return maxI(lo, l), minI(hi, h)
		}
		l1, h1 := k.irange(t.args[1])
		l2, h2 := k.irange(t.args[2])
		lo, hi = maxI(lo, minI(l1, l2)), minI(hi, maxI(h1, h2))
	case OpUF:
		tb := k.ex.tabByName[t.name]
		if tb == nil || tb.w != t.w {
			break
		}
		l, h := k.irange(t.args[0])
		l, h = maxI(l, 0), minI(h, int64(len(tb.vals))-1)
		if l > h {
			break
		}
		a, b := int64(math.MaxInt64), int64(math.MinInt64)
		for _, v := range tb.vals[l : h+1] {
			x := sx(v, tb.w)
			a, b = minI(a, x), maxI(b, x)
		}
		lo, hi = maxI(lo, a), minI(hi, b)
	}
	if f, v := timesConst(t); f != nil {
		l, h := k.irange(f)
		if m := int64(mask(t.w) >> 1); l > -1<<30 && h < 1<<30 && l*v >= -m && h*v <= m {
			lo, hi = maxI(lo, l*v), minI(hi, h*v)
		}
	}
	return
}

// timesConst takes a product with a small positive constant apart.
func timesConst(t *Term) (*Term, int64) {
	switch {
	case t.op == OpMul:
		for i := 0; i < 2; i++ {
			if f := t.args[1-i]; f.op == OpConst {
				if v := sx(f.v, f.w); v > 0 && v < 1<<30 {
					return t.args[i], v
				}
			}
		}
	case t.op == OpConcat && t.args[1].op == OpConst && t.args[1].v == 0 && t.args[1].w < 30:
		x, n := t.args[0], t.args[1].w
		if x.op == OpExtract && x.v == 0 && x.args[0].w == t.w {
			return x.args[0], 1 << n
		}
	}
	return nil, 0
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// intFact uses a comparison of an integer with a constant.
func (k *frangeCtx) intFact(p *Term, pos bool) {
	a, b := p.args[0], p.args[1]
	if a.w == 0 || (a.op == OpConst) == (b.op == OpConst) {
		return
	}
	t, c, left := a, b, true
	if a.op == OpConst {
		t, c, left = b, a, false
	}
	v := sx(c.v, c.w)
	if p.op == OpEq && c.v <= 1<<62 {
		u := linKey{t, true}
		l, h := k.keyRange(u)
		x := int64(c.v)
		switch {
		case pos:
			l, h = maxI(l, x), minI(h, x)
		case x == l:
			l++
		case x == h:
			h--
		}
		k.ints[u] = &[2]int64{l, h}
	}
	lo, hi := k.irange(t)
	if (p.op == OpUlt || p.op == OpUle) && (lo < 0 || v < 0) {
		return
	}
	switch {
	case p.op == OpEq && pos:
		lo, hi = maxI(lo, v), minI(hi, v)
	case p.op == OpEq:
		if v == lo {
			lo++
		} else if v == hi {
			hi--
		}
	default:
		strict := (p.op == OpSlt || p.op == OpUlt) == pos
		upper := left == pos // t < v or not v < t
		switch {
		case upper && strict:
			v--
			fallthrough
		case upper:
			hi = minI(hi, v)
		case strict:
			v++
			fallthrough
		default:
			lo = maxI(lo, v)
		}
	}
	k.setInt(t, lo, hi)
}

func (k *frangeCtx) setInt(t *Term, lo, hi int64) {
	key, off := k.lin(t)
	f := k.ints[key]
	if f == nil {
		f = &[2]int64{math.MinInt64, math.MaxInt64}
		k.ints[key] = f
	}
	if off == 0 {
		f[0], f[1] = maxI(f[0], lo), minI(f[1], hi)
	} else {
		f[0], f[1] = maxI(f[0], lo-off), minI(f[1], hi-off)
	}
}

// resolve is the alternative t stands for, as far as the ranges tell.
func (k *frangeCtx) resolve(t *Term) *Term {
	for t.op == OpIte {
		switch k.truth(t.args[0]) {
		case 1:
			t = t.args[1]
		case 0:
			t = t.args[2]
		default:
			return t
		}
	}
	return t
}

// truth is 1 or 0 when the ranges settle a comparison, else -1.
func (k *frangeCtx) truth(p *Term) int {
	if v, ok := k.known[p.id]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch p.op {
	case OpSlt, OpSle, OpUlt, OpUle, OpEq:
		if p.args[0].w == 0 {
			break
		}
		l1, h1 := k.irange(p.args[0])
		l2, h2 := k.irange(p.args[1])
		if (p.op == OpUlt || p.op == OpUle) && (l1 < 0 || l2 < 0) {
			break
		}
		switch {
		case p.op == OpEq:
			if k.resolve(p.args[0]) == k.resolve(p.args[1]) {
				return 1
			}
			if l1 == h1 && l2 == h2 && l1 == l2 {
				return 1
			}
			if h1 < l2 || h2 < l1 {
				return 0
			}
		case p.op == OpSlt || p.op == OpUlt:
			if h1 < l2 {
				return 1
			}
			if l1 >= h2 {
				return 0
			}
		default:
			if h1 <= l2 {
				return 1
			}
			if l1 > h2 {
				return 0
			}
		}
		return -1
	case OpConst:
		return int(p.v)
	case OpNot:
		if v := k.truth(p.args[0]); v >= 0 {
			return 1 - v
		}
	case OpAnd, OpOr:
		a, b := k.truth(p.args[0]), k.truth(p.args[1])
		z := 0
		if p.op == OpOr {
			z = 1
		}
		switch {
		case a == z || b == z:
			return z
		case a >= 0 && b >= 0:
			return 1 - z
		}
	case OpFIsNaN:
		f := k.of(p.args[0])
		if f.all {
			return 1
		}
		if !f.nan {
			return 0
		}
	case OpFEq:
		a, b := k.of(p.args[0]), k.of(p.args[1])
		switch {
		case a.all || b.all || a.hi < b.lo || b.hi < a.lo:
			return 0
		case !a.nan && !b.nan && a.lo == a.hi && a.lo == b.lo && b.lo == b.hi:
			return 1
		}
	case OpFLt, OpFLe:
		a, b := k.of(p.args[0]), k.of(p.args[1])
		if a.all || b.all {
			return 0
		}
		if p.op == OpFLt {
			if a.lo >= b.hi {
				return 0
			}
			if a.hi < b.lo && !a.nan && !b.nan {
				return 1
			}
		} else {
			if a.lo > b.hi {
				return 0
			}
			if a.hi <= b.lo && !a.nan && !b.nan {
				return 1
			}
		}
	}
	return -1
}

func (k *frangeCtx) calc(t *Term) frange {
	full := frange{lo: math.Inf(-1), hi: math.Inf(1), nan: true}
	rnd := func(v float64) float64 {
		if t.w == 32 {
			return float64(float32(v))
		}
		return v
	}
	finite := func(a frange) bool {
		return !a.nan && !a.all && !math.IsInf(a.lo, 0) && !math.IsInf(a.hi, 0)
	}
	switch t.op {
	case OpConst:
		v := fval(t)
		if math.IsNaN(v) {
			return frange{lo: math.Inf(-1), hi: math.Inf(1), nan: true, all: true}
		}
		return frange{lo: v, hi: v}
	case OpFCvt:
		a := k.of(t.args[0])
		return frange{rnd(a.lo), rnd(a.hi), a.nan, a.all}
	case OpFRound:
		a := k.of(t.args[0])
		f := map[uint64]func(float64) float64{0: math.RoundToEven, 1: math.Floor, 2: math.Ceil, 3: math.Trunc}[t.v]
		return frange{f(a.lo), f(a.hi), a.nan, a.all}
	case OpFAbs:
		a := k.of(t.args[0])
		lo, hi := math.Abs(a.lo), math.Abs(a.hi)
		if lo > hi {
			lo, hi = hi, lo
		}
		if a.lo <= 0 && a.hi >= 0 {
			lo = 0
		}
		return frange{lo, hi, a.nan, a.all}
	case OpSIToF:
		l, h := k.irange(t.args[0])
		if l < -1<<53 || h > 1<<53 {
			break
		}
		return frange{lo: rnd(float64(l)), hi: rnd(float64(h))}
	case OpUIToF:
		l, h := k.irange(t.args[0])
		if l < 0 || h > 1<<53 {
			break
		}
		return frange{lo: rnd(float64(l)), hi: rnd(float64(h))}
	case OpFDiv:
		a, b := k.of(t.args[0]), k.of(t.args[1])
		if !finite(a) || !finite(b) || b.lo <= 0 && b.hi >= 0 {
			break
		}
		r := frange{lo: math.Inf(1), hi: math.Inf(-1)}
		for _, x := range []float64{a.lo, a.hi} {
			for _, y := range []float64{b.lo, b.hi} {
				v := rnd(x / y)
				r.lo, r.hi = math.Min(r.lo, v), math.Max(r.hi, v)
			}
		}
		return r
	case OpUF:
		switch t.name {
		case "sin", "cos":
			if f := k.of(t.args[0]); finite(f) {
				return frange{lo: -1, hi: 1}
			}
		}
	case OpFNeg:
		a := k.of(t.args[0])
		return frange{-a.hi, -a.lo, a.nan, a.all}
	case OpIte:
		a, b := k.of(t.args[1]), k.of(t.args[2])
		return frange{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), a.nan || b.nan, a.all && b.all}
	case OpFAdd:
		a, b := k.of(t.args[0]), k.of(t.args[1])
		if !finite(a) || !finite(b) || t.w == 32 {
			if t.w == 32 && finite(a) && finite(b) {
				// the double sum of two singles, rounded again, is the single sum
				return frange{float64(float32(a.lo + b.lo)), float64(float32(a.hi + b.hi)), false, false}
			}
			return full
		}
		return frange{a.lo + b.lo, a.hi + b.hi, false, false}
	case OpFMul:
		a, b := k.of(t.args[0]), k.of(t.args[1])
		if t.args[0] == t.args[1] && !a.nan && !a.all && (a.lo > 0 || a.hi < 0) {
			l, h := math.Abs(a.lo), math.Abs(a.hi)
			l, h = math.Min(l, h), math.Max(l, h)
			return frange{lo: rnd(l * l), hi: rnd(h * h)}
		}
		if !finite(a) || !finite(b) {
			return full
		}
		r := frange{lo: math.Inf(1), hi: math.Inf(-1)}
		for _, x := range []float64{a.lo, a.hi} {
			for _, y := range []float64{b.lo, b.hi} {
				v := rnd(x * y)
				r.lo, r.hi = math.Min(r.lo, v), math.Max(r.hi, v)
			}
		}
		return r
	}
	return full
}

// floatToIntOn is floatToInt with what the path says about the operand.
func (ex *Exec) floatToIntOn(st *State, t *Term, r *Term) *Term {
	if r.op == OpIte && r.args[0].op == OpFLt && r.args[0].args[0] == t {
		// to an unsigned 64-bit integer
		f := ex.frangeOf(st, t)
		if !f.nan && !f.all && f.hi < 9223372036854775808.0 {
			return ex.floatToIntOn(st, t, r.args[1])
		}
		return r
	}
	if r.op != OpFToSI || r.args[0] != t {
		return r
	}
	c := ex.c
	f := ex.frangeOf(st, t)
	lim := 9223372036854775808.0
	ind := uint64(1) << 63
	if r.w == 32 {
		lim, ind = 2147483648, 1<<31
	}
	lo, hi := math.Trunc(f.lo), math.Trunc(f.hi)
	switch {
	case f.all || lo > hi:
		return c.Const(r.w, ind)
	case hi <= -lim || lo >= lim:
		return c.Const(r.w, ind) // NaN gives the same
	case f.nan || lo < -lim || hi >= lim:
		return r
	case lo == hi:
		return c.Const(r.w, uint64(int64(lo)))
	}
	l, h := c.Const(r.w, uint64(int64(lo))), c.Const(r.w, uint64(int64(hi)))
	ex.addPC(st, c.Sle(l, r))
	ex.addPC(st, c.Sle(r, h))
	return r
}

// dbg writes a term out, to a depth.
func dbg(t *Term, d int) string {
	switch {
	case t.op == OpConst && t.flt:
		return fmt.Sprint(fconst(t))
	case t.op == OpConst:
		return fmt.Sprintf("%d'%d", int64(t.v), t.w)
	case t.op == OpVar:
		return t.name
	case d == 0:
		return fmt.Sprintf("#%d", t.id)
	}
	s := fmt.Sprintf("(%d%s.%d@%d", t.op, t.name, t.v, t.w)
	for _, a := range t.args {
		s += " " + dbg(a, d-1)
	}
	return s + ")"
}
