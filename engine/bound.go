package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"
)

// Bound obligations, |got-want| <= tol with rounding included.  Each side is
// written as a polynomial over the inputs, whose ranges the path gives, plus
// one noise variable per rounded operation, bounded by the unit roundoff
// times a bound on the result.  The difference of the two polynomials, every
// monomial of it a variable within its range, goes to the solver: when
// linear arithmetic has no solution with a difference beyond the tolerance,
// no input has one.

type bmono struct {
	vars []int // atom indices, sorted, with repetition
	c    *big.Rat
}

type bpoly map[string]*bmono

type batom struct {
	lo, hi float64
	noise  bool
	whole  bool    // an integer
	off    float64 // the subterm is this plus the atom
	t      *Term   // the input or opaque subterm, nil for noise and fractions
}

type boundCtx struct {
	rng    *frangeCtx
	atoms  []batom
	byT    map[*Term]int
	frac   map[*Term]int
	memo   map[*Term]bpoly
	byKey  map[linKey]int
	inv    map[string]int
	invOf  map[int]bpoly
	trigs  []*btrig
	absv   []*btrig       // cos is the variable
	opaque map[*Term]bool // taken as variables
	ops    int
	why    string
}

func newBoundCtx(ex *Exec, pc []*Term) *boundCtx {
	b := &boundCtx{rng: newFrangeCtx(ex), byT: map[*Term]int{}, frac: map[*Term]int{}, memo: map[*Term]bpoly{}, byKey: map[linKey]int{}, inv: map[string]int{}, invOf: map[int]bpoly{}}
	for _, p := range pc {
		b.rng.fact(p, true)
	}
	return b
}

func bkey(v []int) string {
	var sb strings.Builder
	for _, x := range v {
		fmt.Fprintf(&sb, "%d,", x)
	}
	return sb.String()
}

func (p bpoly) add(v []int, c *big.Rat) {
	k := bkey(v)
	if m := p[k]; m != nil {
		s := new(big.Rat).Add(m.c, c)
		if s.Sign() == 0 {
			delete(p, k)
			return
		}
		p[k] = &bmono{m.vars, s}
		return
	}
	if c.Sign() != 0 {
		p[k] = &bmono{v, c}
	}
}

func bconst(f float64) bpoly {
	p := bpoly{}
	p.add(nil, new(big.Rat).SetFloat64(f))
	return p
}

func (p bpoly) constant() (*big.Rat, bool) {
	if len(p) == 0 {
		return new(big.Rat), true
	}
	if len(p) == 1 {
		if m := p[""]; m != nil {
			return m.c, true
		}
	}
	return nil, false
}

func (p bpoly) plus(q bpoly, neg bool) bpoly {
	r := bpoly{}
	for k, m := range p {
		r[k] = m
	}
	for _, m := range q {
		c := m.c
		if neg {
			c = new(big.Rat).Neg(c)
		}
		r.add(m.vars, c)
	}
	return r
}

const bslop = 1 + 1e-12

func up(x float64) float64 { return math.Nextafter(x*bslop, math.Inf(1)) }

// monoRange is an interval for the product of the atoms of a monomial.
func (b *boundCtx) monoRange(v []int) (float64, float64) {
	lo, hi := 1.0, 1.0
	for i := 0; i < len(v); {
		j := i
		for j < len(v) && v[j] == v[i] {
			j++
		}
		a := b.atoms[v[i]]
		n := float64(j - i)
		l, h := math.Pow(a.lo, n), math.Pow(a.hi, n)
		if (j-i)%2 == 0 {
			if l > h {
				l, h = h, l
			}
			if a.lo <= 0 && a.hi >= 0 {
				l = 0
			}
		}
		x := []float64{lo * l, lo * h, hi * l, hi * h}
		lo, hi = math.Inf(1), math.Inf(-1)
		for _, y := range x {
			lo, hi = math.Min(lo, y), math.Max(hi, y)
		}
		i = j
	}
	w := 1e-12 * math.Max(math.Abs(lo), math.Abs(hi))
	if len(v) <= 1 {
		w = 0
	}
	return lo - w, hi + w
}

// mag bounds the absolute value of a polynomial.
func (b *boundCtx) mag(p bpoly) float64 {
	lo, hi := 0.0, 0.0
	for _, m := range p {
		c, _ := m.c.Float64()
		l, h := b.monoRange(m.vars)
		if c < 0 {
			l, h = h, l
		}
		lo += c*l - math.Abs(c*l)*1e-12
		hi += c*h + math.Abs(c*h)*1e-12
	}
	return up(math.Max(math.Abs(lo), math.Abs(hi)))
}

func (b *boundCtx) fail(why string) bpoly {
	if b.why == "" {
		b.why = why
	}
	return nil
}

func (b *boundCtx) noise(p bpoly, e float64) bpoly {
	if e == 0 {
		return p
	}
	b.atoms = append(b.atoms, batom{lo: -e, hi: e, noise: true})
	p.add([]int{len(b.atoms) - 1}, big.NewRat(1, 1))
	return p
}

func (b *boundCtx) whole(p bpoly) bool {
	for _, m := range p {
		if !m.c.IsInt() {
			return false
		}
		for _, v := range m.vars {
			if !b.atoms[v].whole {
				return false
			}
		}
	}
	return true
}

// round accounts for the rounding of a value of width w.
func (b *boundCtx) round(p bpoly, w uint8, exact, sub bool) bpoly {
	m := b.mag(p)
	if b.whole(p) && m <= 1<<24 {
		return p // integers are exact
	}
	u, eta, max := 1.2e-16, 5e-324, math.MaxFloat64/2
	if w == 32 {
		u, eta, max = 5.97e-8, 1.5e-45, math.MaxFloat32/2
	}
	if !(m < max) {
		return b.fail("a value may overflow")
	}
	e := 0.0
	if !exact {
		e = up(m * u)
	}
	if sub && m > 0 {
		e += eta
	}
	return b.noise(p, e)
}

func (b *boundCtx) mul(p, q bpoly) bpoly {
	r := bpoly{}
	second := 0.0
	for _, x := range p {
		for _, y := range q {
			v := append(append([]int(nil), x.vars...), y.vars...)
			sort.Ints(v)
			c := new(big.Rat).Mul(x.c, y.c)
			n := 0
			for _, a := range v {
				if b.atoms[a].noise {
					n++
				}
			}
			if n > 0 && len(v) > 1 {
				l, h := b.monoRange(v)
				f, _ := c.Float64()
				second += up(math.Max(math.Abs(l), math.Abs(h)) * math.Abs(f))
				continue
			}
			r.add(v, c)
		}
	}
	return b.noise(r, second)
}

func (b *boundCtx) atom(t *Term) bpoly {
	i, ok := b.byT[t]
	p := bpoly{}
	if !ok {
		f := b.rng.of(t)
		if f.nan || f.all || math.IsInf(f.lo, 0) || math.IsInf(f.hi, 0) || f.lo > f.hi {
			return b.fail("no finite range")
		}
		// measured from the end of the range, when that is away from zero
		off := 0.0
		if f.lo > 0 {
			off = f.lo
		} else if f.hi < 0 {
			off = f.hi
		}
		// the widths are rounded outwards
		lo, hi := f.lo, f.hi
		if off != 0 {
			lo, hi = math.Min(0, -up(-(f.lo-off))), math.Max(0, up(f.hi-off))
		}
		b.atoms = append(b.atoms, batom{lo: lo, hi: hi, t: t, off: off})
		i = len(b.atoms) - 1
		b.byT[t] = i
	}
	p.add(nil, new(big.Rat).SetFloat64(b.atoms[i].off))
	p.add([]int{i}, big.NewRat(1, 1))
	return p
}

func isPow2(r *big.Rat) bool {
	one := func(i *big.Int) bool { return i.BitLen() > 0 && int(i.TrailingZeroBits()) == i.BitLen()-1 }
	return one(new(big.Int).Abs(r.Num())) && one(r.Denom())
}

func (b *boundCtx) of(t *Term) bpoly {
	if p, ok := b.memo[t]; ok {
		return p
	}
	p := b.calc(t)
	if len(p) > 4000 {
		p = b.fail("too many monomials")
	}
	if b.why != "" {
		return nil
	}
	b.memo[t] = p
	return p
}

func (b *boundCtx) calc(t *Term) bpoly {
	if b.why != "" {
		return nil
	}
	if b.opaque[t] {
		return b.atom(t)
	}
	switch t.op {
	case OpConst:
		f := fconst(t)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return b.fail("non-finite constant")
		}
		return bconst(f)
	case OpFAdd, OpFMul, OpFDiv:
		x, y := b.of(t.args[0]), b.of(t.args[1])
		if b.why != "" {
			return nil
		}
		cx, okx := x.constant()
		cy, oky := y.constant()
		b.ops++
		switch t.op {
		case OpFAdd:
			return b.round(x.plus(y, false), t.w, okx && cx.Sign() == 0 || oky && cy.Sign() == 0, false)
		case OpFDiv:
			if oky && cy.Sign() != 0 {
				inv := new(big.Rat).Inv(cy)
				y = bpoly{}
				y.add(nil, inv)
				return b.round(b.mul(x, y), t.w, isPow2(inv), true)
			}
			if y = b.inverse(y); y == nil {
				return nil
			}
			return b.round(b.mul(x, y), t.w, false, true)
		}
		exact := okx && (cx.Sign() == 0 || isPow2(cx)) || oky && (cy.Sign() == 0 || isPow2(cy))
		return b.round(b.mul(x, y), t.w, exact, true)
	case OpFNeg:
		x := b.of(t.args[0])
		if b.why != "" {
			return nil
		}
		return bpoly{}.plus(x, true)
	case OpFAbs:
		x := b.of(t.args[0])
		if b.why != "" {
			return nil
		}
		return b.abs(x)
	case OpFCvt:
		x := b.of(t.args[0])
		if b.why != "" {
			return nil
		}
		if t.w >= t.args[0].w {
			return x
		}
		b.ops++
		return b.round(bpoly{}.plus(x, false), t.w, false, true)
	case OpFRound:
		if t.v == 1 {
			if f := b.rng.of(t); !f.nan && f.lo == f.hi {
				return bconst(f.lo)
			}
			x := b.of(t.args[0])
			if b.why != "" {
				return nil
			}
			i, ok := b.frac[t]
			if !ok {
				b.atoms = append(b.atoms, batom{lo: 0, hi: 1})
				i = len(b.atoms) - 1
				b.frac[t] = i
			}
			p := bpoly{}.plus(x, false)
			p.add([]int{i}, big.NewRat(-1, 1))
			return p
		}
	case OpIte:
		// a condition the ranges settle
		switch b.rng.truth(t.args[0]) {
		case 1:
			return b.of(t.args[1])
		case 0:
			return b.of(t.args[2])
		}
		x, y := b.of(t.args[1]), b.of(t.args[2])
		if b.why != "" {
			return nil
		}
		if len(x.plus(y, true)) == 0 {
			return x
		}
	case OpUIToF:
		if l, h := b.rng.irange(t.args[0]); l >= 0 && l == h {
			return bconst(float64(l))
		}
	case OpSIToF:
		if p := b.ints(t.args[0]); p != nil {
			m := b.mag(p)
			if m < 1<<50 && (t.w == 64 || m <= 1<<24) {
				return p
			}
		}
	case OpUF:
		if t.name == "cos" || t.name == "sin" {
			return b.trig(t)
		}
	}
	return b.atom(t)
}

// ints is an integer as a polynomial, nil when it has no small range.
func (b *boundCtx) ints(t *Term) bpoly {
	const lim = 1 << 50
	if t.op == OpConst {
		v := sx(t.v, t.w)
		if v < -lim || v > lim {
			return nil
		}
		return bconst(float64(v))
	}
	l, h := b.rng.irange(t)
	if l > h || l < -lim || h > lim {
		return nil
	}
	if l == h {
		return bconst(float64(l))
	}
	switch t.op {
	case OpAdd:
		x, y := b.ints(t.args[0]), b.ints(t.args[1])
		if x != nil && y != nil && b.mag(x)+b.mag(y) <= float64(mask(t.w)>>1) {
			return x.plus(y, false)
		}
	case OpNeg:
		if x := b.ints(t.args[0]); x != nil && b.mag(x) <= float64(mask(t.w)>>1) {
			return bpoly{}.plus(x, true)
		}
	case OpIte:
		switch b.rng.truth(t.args[0]) {
		case 1:
			return b.ints(t.args[1])
		case 0:
			return b.ints(t.args[2])
		}
	}
	key, off := b.rng.lin(t)
	i, ok := b.byKey[key]
	if !ok {
		b.atoms = append(b.atoms, batom{lo: float64(l - off), hi: float64(h - off), whole: true})
		i = len(b.atoms) - 1
		b.byKey[key] = i
	}
	p := bconst(float64(off))
	p.add([]int{i}, big.NewRat(1, 1))
	return p
}

// script is the query for one obligation; "" when there is none to make.
func (b *boundCtx) script(o *Oblig) (string, bpoly) {
	b.angles(o.real.got, o.real.want)
	g, w := b.of(o.real.got), b.of(o.real.want)
	if b.why != "" {
		return "", nil
	}
	d := g.plus(w, true)
	var sb strings.Builder
	var terms []string
	slack := 0.0
	keys := make([]string, 0, len(d))
	for k := range d {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		m := d[k]
		l, h := b.monoRange(m.vars)
		c, exact := m.c.Float64()
		if !exact {
			slack += up(math.Abs(c) * 2.3e-16 * math.Max(math.Abs(l), math.Abs(h)))
		}
		fmt.Fprintf(&sb, "(declare-const m%d Real)\n(assert (and (<= %s m%d) (<= m%d %s)))\n", i, fstr(l), i, i, fstr(h))
		terms = append(terms, fmt.Sprintf("(* %s m%d)", fstr(c), i))
	}
	sum := "0.0"
	switch len(terms) {
	case 0:
	case 1:
		sum = terms[0]
	default:
		sum = "(+ " + strings.Join(terms, " ") + ")"
	}
	tol := o.real.tol - slack
	fmt.Fprintf(&sb, "(assert (let ((d %s)) (or (> d %s) (< d %s))))\n", sum, fstr(tol), fstr(-tol))
	return sb.String(), d
}

// product is the query with every monomial the product it stands for.
func (b *boundCtx) product(o *Oblig, d bpoly) string {
	q, e := b.split(d)
	if len(q) > 60 {
		return ""
	}
	var sb, rel strings.Builder
	used := map[int]bool{}
	var terms []string
	poly := func(p bpoly) string {
		s := "(+ 0.0"
		for _, m := range p {
			s += " (* " + ratStr(m.c)
			for _, v := range m.vars {
				s += fmt.Sprintf(" a%d", v)
				used[v] = true
			}
			s += " 1.0)"
		}
		return s + ")"
	}
	for _, m := range q {
		c, exact := m.c.Float64()
		l, h := b.monoRange(m.vars)
		if !exact {
			e += up(math.Abs(c) * 2.3e-16 * math.Max(math.Abs(l), math.Abs(h)))
		}
		s := "(* " + fstr(c)
		for _, v := range m.vars {
			s += fmt.Sprintf(" a%d", v)
			used[v] = true
		}
		terms = append(terms, s+" 1.0)")
	}
	// what ties the variables together
	for v := len(b.atoms) - 1; v >= 0; v-- {
		if !used[v] {
			continue
		}
		if p := b.invOf[v]; p != nil {
			fmt.Fprintf(&rel, "(assert (= (* a%d %s) 1.0))\n", v, poly(p))
		}
		for _, a := range b.absv {
			if a.cos == v {
				s := poly(a.p)
				fmt.Fprintf(&rel, "(assert (or (= a%d %s) (= (- a%d) %s)))\n", v, s, v, s)
			}
		}
	}
	for v := range used {
		a := b.atoms[v]
		fmt.Fprintf(&sb, "(declare-const a%d Real)\n(assert (and (<= %s a%d) (<= a%d %s)))\n", v, fstr(a.lo), v, v, fstr(a.hi))
	}
	for _, t := range b.trigs {
		if used[t.cos] && used[t.sin] {
			fmt.Fprintf(&sb, "(assert (= (+ (* a%d a%d) (* a%d a%d)) 1.0))\n", t.cos, t.cos, t.sin, t.sin)
		}
	}
	sb.WriteString(rel.String())
	sort.Strings(terms)
	tol := o.real.tol - e
	fmt.Fprintf(&sb, "(assert (let ((d (+ 0.0 %s))) (or (> d %s) (< d %s))))\n", strings.Join(terms, " "), fstr(tol), fstr(-tol))
	return sb.String()
}

func fstr(f float64) string { return ratStr(new(big.Rat).SetFloat64(f)) }

// decideBounds proves bound obligations; the result says which.
func (s *Session) decideBounds(ex *Exec, r *JobResult, obs []*Oblig, left func() time.Duration) []bool {
	ok := make([]bool, len(obs))
	var scripts []string
	var idx []int
	var why []string
	var prod []func() string
	pcs := map[string]*boundCtx{}
	for i, o := range obs {
		if left() < time.Second {
			break
		}
		k := fmt.Sprint(len(o.pc))
		for _, p := range o.pc {
			k += fmt.Sprintf(",%d", p.id)
		}
		b := pcs[k]
		if b == nil || b.why != "" {
			b = newBoundCtx(ex, o.pc)
			pcs[k] = b
		}
		sc, d := b.script(o)
		if sc == "" {
			why = append(why, b.why)
			continue
		}
		dump("bound", sc)
		scripts = append(scripts, sc)
		idx = append(idx, i)
		o := o
		prod = append(prod, func() string { return b.product(o, d) })
	}
	var again []string
	var idx2 []int
	for k, v := range realBatch(scripts, 10*time.Second, minDur(left()/2, 200*time.Second)) {
		if v == "unsat" {
			ok[idx[k]] = true
			r.byReal++
		} else if p := prod[k](); p != "" {
			dump("product", p)
			again = append(again, p)
			idx2 = append(idx2, idx[k])
		}
	}
	for k, v := range realBatch(again, 10*time.Second, minDur(left()/2, 200*time.Second)) {
		if v == "unsat" {
			ok[idx2[k]] = true
			r.byReal++
		}
	}
	if len(why) > 0 && r.note == "" {
		r.note = "bound: " + why[0]
	}
	return ok
}

// split separates the part of a polynomial free of noise, and bounds the rest.
func (b *boundCtx) split(p bpoly) (bpoly, float64) {
	q, e := bpoly{}, 0.0
	for k, m := range p {
		noisy := false
		for _, v := range m.vars {
			noisy = noisy || b.atoms[v].noise
		}
		if !noisy {
			q[k] = m
			continue
		}
		l, h := b.monoRange(m.vars)
		c, _ := m.c.Float64()
		e += up(math.Abs(c) * math.Max(math.Abs(l), math.Abs(h)))
	}
	return q, e
}

func (b *boundCtx) interval(p bpoly) (lo, hi float64) {
	for _, m := range p {
		c, _ := m.c.Float64()
		l, h := b.monoRange(m.vars)
		if c < 0 {
			l, h = h, l
		}
		lo += c*l - math.Abs(c*l)*1e-12
		hi += c*h + math.Abs(c*h)*1e-12
	}
	return
}

func (p bpoly) String() string {
	var l []string
	for k, m := range p {
		l = append(l, k+":"+m.c.RatString())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// inverse is 1/p for a polynomial that stays away from zero.
func (b *boundCtx) inverse(p bpoly) bpoly {
	q, e := b.split(p)
	key := q.String()
	lo, hi := b.interval(q)
	if lo-e <= 0 && hi+e >= 0 {
		return b.fail("division by what may be zero")
	}
	i, ok := b.inv[key]
	if c, k := q.constant(); k {
		m := math.Min(math.Abs(lo), math.Abs(hi))
		r := bpoly{}
		r.add(nil, new(big.Rat).Inv(c))
		return b.noise(r, up(e/(m*(m-e))))
	}
	if !ok {
		x, y := 1/hi, 1/lo
		b.atoms = append(b.atoms, batom{lo: x - math.Abs(x)*1e-12, hi: y + math.Abs(y)*1e-12})
		i = len(b.atoms) - 1
		b.inv[key] = i
		b.invOf[i] = q
	}
	r := bpoly{}
	r.add([]int{i}, big.NewRat(1, 1))
	if e > 0 {
		// 1/(q+d) - 1/q = -d/(q(q+d))
		m := math.Min(math.Abs(lo), math.Abs(hi))
		r = b.noise(r, up(e/(m*(m-e))))
	}
	return r
}

// abs is the absolute value: the polynomial or its negation when the sign is
// known, else a variable, shared with those that differ by rounding only.
func (b *boundCtx) abs(p bpoly) bpoly {
	q, e := b.split(p)
	lo, hi := b.interval(q)
	if lo-e >= 0 {
		return p
	}
	if hi+e <= 0 {
		return bpoly{}.plus(p, true)
	}
	for _, a := range b.absv {
		for _, neg := range []bool{false, true} {
			d := q.plus(a.p, !neg)
			mag := 0.0
			for _, x := range d {
				l, h := b.monoRange(x.vars)
				c, _ := x.c.Float64()
				mag += up(math.Abs(c) * math.Max(math.Abs(l), math.Abs(h)))
			}
			if mag > 1e-9 {
				continue
			}
			r := bpoly{}
			r.add([]int{a.cos}, big.NewRat(1, 1))
			return b.noise(r, up(mag+e))
		}
	}
	b.atoms = append(b.atoms, batom{lo: 0, hi: up(math.Max(math.Abs(lo), math.Abs(hi)))})
	b.absv = append(b.absv, &btrig{p: q, cos: len(b.atoms) - 1})
	return b.abs(p)
}

// A btrig is an angle whose cosine and sine are atoms.
type btrig struct {
	p        bpoly
	lead     float64
	cos, sin int
}

func (p bpoly) lead() (string, float64) {
	k0, c0 := "", 0.0
	for k, m := range p {
		if c, _ := m.c.Float64(); c0 == 0 || k < k0 {
			k0, c0 = k, c
		}
	}
	return k0, c0
}

// trig is the cosine or sine of an angle, as a polynomial in the cosine (and
// sine) of the smallest angle seen that divides it.  An angle differing from
// a multiple of that by rounding only is taken for the multiple, and the
// difference, to which the result is no more sensitive than 1, is noise.
func (b *boundCtx) trig(t *Term) bpoly {
	p := b.of(t.args[0])
	if b.why != "" {
		return nil
	}
	q, e := b.split(p)
	if c, ok := q.constant(); ok {
		f, _ := c.Float64()
		v := math.Cos(f)
		if t.name == "sin" {
			v = math.Sin(f)
		}
		return b.noise(bconst(v), up(e+1e-15+math.Abs(f)*2e-16))
	}
	_, lead := q.lead()
	for _, a := range b.trigs {
		m := math.Round(lead / a.lead)
		if m == 0 || math.Abs(m) > 8 {
			continue
		}
		// how far the angle is from m times that one
		d := q.plus(a.p.scale(m), true)
		mag := 0.0
		for _, x := range d {
			l, h := b.monoRange(x.vars)
			c, _ := x.c.Float64()
			mag += up(math.Abs(c) * math.Max(math.Abs(l), math.Abs(h)))
		}
		if mag > 1e-9 {
			continue
		}
		c, s := b.multiple(a, int(math.Abs(m)))
		if t.name == "cos" {
			return b.noise(c, up(mag+e+1e-15))
		}
		if m < 0 {
			s = bpoly{}.plus(s, true)
		}
		return b.noise(s, up(mag+e+1e-15))
	}
	a := &btrig{p: q, lead: lead}
	b.atoms = append(b.atoms, batom{lo: -1, hi: 1}, batom{lo: -1, hi: 1})
	a.cos, a.sin = len(b.atoms)-2, len(b.atoms)-1
	b.trigs = append(b.trigs, a)
	return b.trig(t)
}

func (p bpoly) scale(m float64) bpoly {
	r := bpoly{}
	x := new(big.Rat).SetFloat64(m)
	for _, v := range p {
		r.add(v.vars, new(big.Rat).Mul(v.c, x))
	}
	return r
}

// multiple is the cosine and sine of m times an angle.
func (b *boundCtx) multiple(a *btrig, m int) (c, s bpoly) {
	c, s = bconst(1), bpoly{}
	c1, s1 := bpoly{}, bpoly{}
	c1.add([]int{a.cos}, big.NewRat(1, 1))
	s1.add([]int{a.sin}, big.NewRat(1, 1))
	for i := 0; i < m; i++ {
		c, s = b.mul(c, c1).plus(b.mul(s, s1), true), b.mul(s, c1).plus(b.mul(c, s1), false)
		c, s = b.square(c, a), b.square(s, a)
	}
	return
}

// square replaces the square of the sine.
func (b *boundCtx) square(p bpoly, a *btrig) bpoly {
	r := bpoly{}
	for _, m := range p {
		var rest []int
		n := 0
		for _, v := range m.vars {
			if v == a.sin {
				n++
			} else {
				rest = append(rest, v)
			}
		}
		if n < 2 {
			r.add(m.vars, m.c)
			continue
		}
		if n%2 == 1 {
			rest = append(rest, a.sin)
		}
		x := bpoly{}
		sort.Ints(rest)
		x.add(rest, m.c)
		for ; n >= 2; n -= 2 {
			y := bpoly{}
			for _, z := range x {
				y.add(z.vars, z.c)
				v := append(append([]int(nil), z.vars...), a.cos, a.cos)
				sort.Ints(v)
				y.add(v, new(big.Rat).Neg(z.c))
			}
			x = y
		}
		r = r.plus(x, false)
	}
	return r
}

// angles orders the trigonometric subterms so that the smallest angle of
// each kind comes first.
func (b *boundCtx) angles(ts ...*Term) {
	var found []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.op == OpUF && (t.name == "cos" || t.name == "sin") && t.args[0].op != OpConst {
			found = append(found, t)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	type angle struct {
		t *Term
		l float64
	}
	var as []angle
	for _, t := range found {
		why := b.why
		p := b.of(t.args[0])
		if b.why != "" {
			b.why = why
			continue
		}
		q, _ := b.split(p)
		_, l := q.lead()
		as = append(as, angle{t, math.Abs(l)})
	}
	sort.SliceStable(as, func(i, j int) bool { return as[i].l < as[j].l })
	for _, a := range as {
		if a.l > 0 {
			b.of(a.t)
		}
	}
}
