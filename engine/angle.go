package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"
)

// Angle obligations: a value compared with the direction of the vector
// (x, y), for all vectors.  The plane is cut into sectors, narrowed until
// each is decided.  In a sector x and y are real variables in a cone, values
// linear in them stay linear (each rounding a variable no larger than the
// unit roundoff times the value), and a quotient of two linear values ranges
// between its values on the two edges, which the solver confirms.  What is
// computed from quotients is then a polynomial in narrow ranges, as for bound
// obligations, and the solver is asked for a value beyond the tolerance.

type angleOb struct {
	y, x   *Term
	in     bool // the value lies in [lo, hi], whatever the direction
	lo, hi float64
}

// direction is the point of the unit square's edge at p in [0,8].
func direction(p float64) (c, s float64) {
	switch {
	case p <= 1:
		return 1, p
	case p <= 3:
		return 2 - p, 1
	case p <= 5:
		return -1, 4 - p
	case p <= 7:
		return p - 6, -1
	}
	return 1, p - 8
}

// angleAt encloses the angle of direction p, in the lower half plane for a
// sector there.
func angleAt(p float64, lower bool) (lo, hi float64) {
	c, s := direction(p)
	a := math.Atan2(math.Abs(s), c)
	if lower {
		a = -a
	}
	return a - 1e-14, a + 1e-14
}

type sector struct {
	ob     int
	p0, p1 float64
	cases  []sectorCase // assumed besides
}

type sectorCase struct {
	cond *Term
	is   bool
}

// openCond is a condition the value depends on that the ranges leave open.
func openCond(r *frangeCtx, t *Term) *Term {
	seen := map[*Term]bool{}
	var atom func(p *Term) *Term
	atom = func(p *Term) *Term {
		if r.truth(p) >= 0 {
			return nil
		}
		switch p.op {
		case OpNot, OpAnd, OpOr:
			for _, x := range p.args {
				if a := atom(x); a != nil {
					return a
				}
			}
		}
		return p
	}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		args := t.args
		if t.op == OpIte {
			switch r.truth(t.args[0]) {
			case -1:
				return atom(t.args[0])
			case 1:
				args = args[1:2]
			case 0:
				args = args[2:]
			}
		}
		for _, x := range args {
			if a := walk(x); a != nil {
				return a
			}
		}
		return nil
	}
	return walk(t)
}

// A coneForm is a value a*x + b*y + c, up to rounding, and its name.
type coneForm struct {
	a, b, c *big.Rat
	name    string
	slack   bool
}

type coneCtx struct {
	ex     *Exec
	rng    *frangeCtx
	bx, by *Term // the inputs themselves
	s      sector
	sb     strings.Builder
	n      int
	memo   map[*Term]*coneForm
	mag    float64
	intIn  bool
}

func stripCvt(t *Term) *Term {
	for {
		switch {
		case t.op == OpFCvt && t.w >= t.args[0].w, t.op == OpSIToF, t.op == OpSExt:
			t = t.args[0]
		default:
			return t
		}
	}
}

func (k *coneCtx) form(a, b, c *big.Rat, expr string, rel, abs float64) *coneForm {
	k.n++
	n := fmt.Sprintf("l%d", k.n)
	f := &coneForm{a, b, c, n, rel+abs > 0}
	if rel+abs == 0 {
		fmt.Fprintf(&k.sb, "(define-fun %s () Real %s)\n", n, expr)
		return f
	}
	fmt.Fprintf(&k.sb, "(define-fun %se () Real %s)\n(declare-const %s Real)\n", n, expr, n)
	fmt.Fprintf(&k.sb, "(assert (let ((m (+ %s (* %s (ite (< %se 0.0) (- %se) %se))))) (and (<= (- %s %se) m) (<= (- %se %s) m))))\n",
		fstr(abs), fstr(rel), n, n, n, n, n, n, n)
	return f
}

// lin is t as a linear form, or nil.
func (k *coneCtx) lin(t *Term, flt bool) *coneForm {
	if t.op == OpConst {
		return k.lin1(t, flt)
	}
	if f, ok := k.memo[t]; ok {
		return f
	}
	f := k.lin1(t, flt)
	k.memo[t] = f
	return f
}

func (k *coneCtx) lin1(t *Term, flt bool) *coneForm {
	zero, one := new(big.Rat), big.NewRat(1, 1)
	u, eta := 1.2e-16, 5e-324
	if t.w == 32 {
		u, eta = 5.97e-8, 1.5e-45
	}
	switch {
	case t == k.bx:
		return &coneForm{one, zero, zero, "X", false}
	case t == k.by:
		return &coneForm{zero, one, zero, "Y", false}
	case t.op == OpConst:
		r := new(big.Rat)
		if flt {
			f := fconst(t)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return nil
			}
			r.SetFloat64(f)
		} else {
			r.SetInt64(sx(t.v, t.w))
		}
		return &coneForm{zero, zero, r, ratStr(r), false}
	}
	switch t.op {
	case OpFAdd, OpFMul, OpFDiv, OpFNeg, OpFAbs, OpFCvt:
		flt = true
	case OpAdd, OpNeg, OpSIToF, OpMul, OpConcat, OpSExt, OpExtract:
		flt = false
	}
	if !flt && !k.intIn {
		return nil
	}
	arg := func(i int) *coneForm { return k.lin(t.args[i], flt) }
	scaled := func(f *coneForm, c *big.Rat, rel, abs float64) *coneForm {
		m := func(x *big.Rat) *big.Rat { return new(big.Rat).Mul(x, c) }
		return k.form(m(f.a), m(f.b), m(f.c), "(* "+ratStr(c)+" "+f.name+")", rel, abs)
	}
	isC := func(f *coneForm) bool { return f.a.Sign() == 0 && f.b.Sign() == 0 && !f.slack }
	// integers wrap unless they are small enough
	fits := func(f *coneForm) *coneForm {
		if f == nil {
			return nil
		}
		m := 0.0
		for i, r := range []*big.Rat{f.a, f.b, f.c} {
			v, _ := r.Float64()
			if i < 2 {
				v *= k.mag
			}
			m += math.Abs(v)
		}
		if m > math.Ldexp(1, int(t.w)-4) {
			return nil
		}
		return f
	}
	switch t.op {
	case OpFAdd, OpAdd:
		x, y := arg(0), arg(1)
		if x == nil || y == nil {
			return nil
		}
		if isC(x) && x.c.Sign() == 0 {
			return y
		}
		if isC(y) && y.c.Sign() == 0 {
			return x
		}
		p := func(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
		if t.op == OpAdd {
			u = 0
		}
		f := k.form(p(x.a, y.a), p(x.b, y.b), p(x.c, y.c), "(+ "+x.name+" "+y.name+")", u, 0)
		if t.op == OpAdd {
			return fits(f)
		}
		return f
	case OpFMul:
		x, y := arg(0), arg(1)
		if x == nil || y == nil {
			return nil
		}
		if isC(y) {
			x, y = y, x
		}
		if !isC(x) {
			return nil
		}
		if isPow2(x.c) {
			u = 0
		}
		return scaled(y, x.c, u, eta)
	case OpFDiv:
		x, y := arg(0), arg(1)
		if x == nil || y == nil || !isC(y) || y.c.Sign() == 0 {
			return nil
		}
		return scaled(x, new(big.Rat).Inv(y.c), u, eta)
	case OpFNeg, OpNeg:
		if x := arg(0); x != nil {
			f := scaled(x, big.NewRat(-1, 1), 0, 0)
			if t.op == OpNeg {
				return fits(f)
			}
			return f
		}
	case OpFAbs:
		x := arg(0)
		if x == nil {
			return nil
		}
		switch k.sign(x) {
		case 1:
			return x
		case -1:
			return scaled(x, big.NewRat(-1, 1), 0, 0)
		}
	case OpFCvt:
		x := arg(0)
		if x == nil || t.w >= t.args[0].w {
			return x
		}
		return k.form(x.a, x.b, x.c, x.name, u, eta)
	case OpSIToF:
		x := arg(0)
		if x == nil {
			return nil
		}
		if k.mag <= 1<<24 || t.w == 64 && k.mag <= 1<<53 {
			u = 0
		}
		return k.form(x.a, x.b, x.c, x.name, u, 0)
	case OpIte:
		switch k.rng.truth(t.args[0]) {
		case 1:
			return arg(1)
		case 0:
			return arg(2)
		}
	case OpSExt:
		return arg(0)
	case OpExtract:
		if t.v == 0 {
			return fits(arg(0))
		}
	case OpMul, OpConcat:
		if t.op == OpConcat && t.args[1].op == OpConst && t.args[1].v == 0 {
			if f := arg(0); f != nil {
				return fits(scaled(f, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(t.args[1].w))), 0, 0))
			}
		}
		if x, c := timesConst(t); x != nil {
			if f := k.lin(x, false); f != nil {
				return fits(scaled(f, new(big.Rat).SetInt64(c), 0, 0))
			}
		}
	}
	return nil
}

// at evaluates a form on an edge of the sector, rounding aside.
func (f *coneForm) at(p float64) *big.Rat {
	c, s := direction(p)
	r := new(big.Rat).Mul(f.a, new(big.Rat).SetFloat64(c))
	return r.Add(r, new(big.Rat).Mul(f.b, new(big.Rat).SetFloat64(s)))
}

// sign of a form without a constant term all over the sector.
func (k *coneCtx) sign(f *coneForm) int {
	if f.c.Sign() != 0 {
		return 0
	}
	a, b := f.at(k.s.p0).Sign(), f.at(k.s.p1).Sign()
	switch {
	case a >= 0 && b >= 0:
		return 1
	case a <= 0 && b <= 0:
		return -1
	}
	return 0
}

// pred is a path condition in linear arithmetic, "" when it has none.
func (k *coneCtx) pred(t *Term) string {
	switch t.op {
	case OpConst:
		return constStr(0, t.v)
	case OpNot:
		if x := k.pred(t.args[0]); x != "" {
			return "(not " + x + ")"
		}
	case OpAnd, OpOr:
		x, y := k.pred(t.args[0]), k.pred(t.args[1])
		if x != "" && y != "" {
			return map[Op]string{OpAnd: "(and ", OpOr: "(or "}[t.op] + x + " " + y + ")"
		}
	case OpFLt, OpFLe, OpFEq, OpSlt, OpSle, OpEq:
		if t.args[0].w == 0 {
			return ""
		}
		flt := t.op == OpFLt || t.op == OpFLe || t.op == OpFEq
		if !flt && !k.intIn {
			return ""
		}
		x, y := k.lin(t.args[0], flt), k.lin(t.args[1], flt)
		if x != nil && y != nil {
			op := map[Op]string{OpFLt: "<", OpFLe: "<=", OpFEq: "=", OpSlt: "<", OpSle: "<=", OpEq: "="}[t.op]
			return "(" + op + " " + x.name + " " + y.name + ")"
		}
	case OpFIsNaN:
		if k.lin(t.args[0], true) != nil {
			return "false"
		}
	}
	return ""
}

// signs of x and y all over the sector.
func (s sector) signs() (x, y int) {
	c0, s0 := direction(s.p0)
	c1, s1 := direction(s.p1)
	sg := func(v float64) int {
		switch {
		case v > 0:
			return 1
		case v < 0:
			return -1
		}
		return 0
	}
	return sg(c0 + c1), sg(s0 + s1)
}

// signs tells a range context where the sector lies.
func (k *coneCtx) signs(r *frangeCtx) {
	set := func(t *Term, sg int) {
		if t.flt || t.op == OpVar && k.isFloat() {
			f := r.get(t)
			tiny := math.SmallestNonzeroFloat64
			if t.w == 32 {
				tiny = math.SmallestNonzeroFloat32
			}
			if sg <= 0 {
				f.hi = math.Min(f.hi, tiny*float64(sg))
			}
			if sg >= 0 {
				f.lo = math.Max(f.lo, tiny*float64(sg))
			}
			f.nan = false
			return
		}
		l, h := int64(math.MinInt64), int64(math.MaxInt64)
		if sg <= 0 {
			h = int64(sg)
		}
		if sg >= 0 {
			l = int64(sg)
		}
		r.setInt(t, l, h)
	}
	sx, sy := k.s.signs()
	set(k.by, sy)
	set(k.bx, sx)
}

func (k *coneCtx) isFloat() bool { return !k.intIn }

type quotient struct {
	t      *Term
	lo, hi *big.Rat // nil: unbounded
}

// sectorScript is the query for one obligation in one sector, and a condition
// to tell cases by if it fails.
func (ex *Exec) sectorScript(o *Oblig, s sector) (script string, open *Term) {
	a := o.real.angle
	k := &coneCtx{ex: ex, s: s, memo: map[*Term]*coneForm{}}
	k.bx, k.by = stripCvt(a.x), stripCvt(a.y)
	k.intIn = a.x != k.bx && containsOp(a.x, OpSIToF)
	// what the path says
	base := newFrangeCtx(ex)
	for _, p := range o.pc {
		base.fact(p, true)
	}
	k.signs(base)
	if k.intIn {
		for _, t := range []*Term{k.bx, k.by} {
			l, h := base.irange(t)
			k.mag = math.Max(k.mag, math.Max(math.Abs(float64(l)), math.Abs(float64(h))))
		}
	} else {
		for _, t := range []*Term{k.bx, k.by} {
			f := base.of(t)
			k.mag = math.Max(k.mag, math.Max(math.Abs(f.lo), math.Abs(f.hi)))
		}
		if !(k.mag < 1e30) {
			if *fV {
				fmt.Println(s, "large", k.mag)
			}
			return "", open
		}
	}
	// signs alone, to see what the sector settles
	k.rng = newFrangeCtx(ex)
	k.signs(k.rng)
	c0, s0 := direction(s.p0)
	c1, s1 := direction(s.p1)
	var head strings.Builder
	head.WriteString("(declare-const X Real)\n(declare-const Y Real)\n")
	fmt.Fprintf(&head, "(assert (>= (- (* %s Y) (* %s X)) 0.0))\n(assert (<= (- (* %s Y) (* %s X)) 0.0))\n", fstr(c0), fstr(s0), fstr(c1), fstr(s1))
	sx, sy := s.signs()
	lower := sy < 0
	for i, sg := range []int{sx, sy} {
		fmt.Fprintf(&head, "(assert (%s %s 0.0))\n", []string{"<", "=", ">"}[sg+1], []string{"X", "Y"}[i])
	}
	// the quotients of linear values
	var qs []quotient
	var claims []string
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		args := t.args
		if t.op == OpIte {
			switch k.rng.truth(t.args[0]) {
			case 1:
				args = args[1:2]
			case 0:
				args = args[2:]
			}
		}
		for _, x := range args {
			walk(x)
		}
		if t.op != OpFDiv && t.op != OpSDiv {
			return
		}
		n, d := k.lin(t.args[0], t.op == OpFDiv), k.lin(t.args[1], t.op == OpFDiv)
		if n == nil || d == nil || d.a.Sign() == 0 && d.b.Sign() == 0 {
			return
		}
		n0, n1, d0, d1 := n.at(s.p0), n.at(s.p1), d.at(s.p0), d.at(s.p1)
		sg := d0.Sign()
		if sg == 0 {
			sg = d1.Sign()
		}
		if sg == 0 || d0.Sign()*d1.Sign() < 0 {
			return
		}
		q := quotient{t: t}
		var lo, hi *big.Rat
		inf := 0
		for i, nn := range []*big.Rat{n0, n1} {
			dd := []*big.Rat{d0, d1}[i]
			if dd.Sign() == 0 {
				inf = nn.Sign() * sg
				continue
			}
			v := new(big.Rat).Quo(nn, dd)
			if lo == nil || v.Cmp(lo) < 0 {
				lo = v
			}
			if hi == nil || v.Cmp(hi) > 0 {
				hi = v
			}
		}
		if n.slack || d.slack {
			w := new(big.Rat).SetFloat64(4e-7)
			m := new(big.Rat).Abs(lo)
			if h := new(big.Rat).Abs(hi); h.Cmp(m) > 0 {
				m = h
			}
			m.Add(m, big.NewRat(1, 1)).Mul(m, w)
			lo, hi = new(big.Rat).Sub(lo, m), new(big.Rat).Add(hi, m)
		}
		if inf > 0 {
			hi = nil
		} else if inf < 0 {
			lo = nil
		}
		q.lo, q.hi = lo, hi
		D, N := d.name, n.name
		if sg < 0 {
			D, N = "(- "+D+")", "(- "+N+")"
		}
		claims = append(claims, "(<= "+D+" 0.0)")
		if lo != nil {
			claims = append(claims, fmt.Sprintf("(< %s (* %s %s))", N, ratStr(lo), D))
		}
		if hi != nil {
			claims = append(claims, fmt.Sprintf("(> %s (* %s %s))", N, ratStr(hi), D))
		}
		qs = append(qs, q)
	}
	walk(o.real.got)
	var conds []string
	for _, p := range o.pc {
		if q := k.pred(p); q != "" {
			conds = append(conds, "(assert "+q+")\n")
		}
	}
	use := func(r *frangeCtx) {
		for _, q := range qs {
			if q.t.op == OpSDiv {
				// no larger than the numerator
				l, h := int64(-1<<60), int64(1<<60)
				if q.lo != nil {
					l = truncRat(q.lo)
				}
				if q.hi != nil {
					h = truncRat(q.hi)
				}
				r.setInt(q.t, l, h)
				continue
			}
			u, eta := 1.3e-16, 5e-324
			if q.t.w == 32 {
				u, eta = 6e-8, 1.5e-45
			}
			f := r.get(q.t)
			if q.lo != nil {
				v, _ := q.lo.Float64()
				f.lo = math.Max(f.lo, v-math.Abs(v)*u-eta)
			}
			if q.hi != nil {
				v, _ := q.hi.Float64()
				f.hi = math.Min(f.hi, v+math.Abs(v)*u+eta)
			}
			f.nan = false
		}
	}
	// does the sector exclude the path?
	alone := newFrangeCtx(ex)
	k.signs(alone)
	use(alone)
	goal := ""
	for _, p := range o.pc {
		if alone.truth(p) == 0 {
			goal = "false"
		}
	}
	for _, cs := range s.cases {
		switch alone.truth(cs.cond) {
		case -1:
			alone.fact(cs.cond, cs.is)
			alone.memo = map[*Term]frange{}
		case 1:
			if !cs.is {
				goal = "false"
			}
		case 0:
			if cs.is {
				goal = "false"
			}
		}
	}
	b := &boundCtx{rng: base, byT: map[*Term]int{}, frac: map[*Term]int{}, memo: map[*Term]bpoly{}, byKey: map[linKey]int{}, inv: map[string]int{}, invOf: map[int]bpoly{}, opaque: map[*Term]bool{}}
	base.memo = map[*Term]frange{}
	use(base)
	for _, cs := range s.cases {
		base.fact(cs.cond, cs.is)
		base.known[cs.cond.id] = cs.is
	}
	base.memo = map[*Term]frange{}
	open = openCond(base, o.real.got)
	for _, q := range qs {
		b.opaque[q.t] = true
	}
	var tail strings.Builder
	if goal == "" {
		g := b.of(o.real.got)
		if b.why != "" {
			if *fV && s.p1-s.p0 < 1e-4 {
				fmt.Println(s, b.why)
			}
			return "", open
		}
		e, err := b.sum(g, &tail)
		lo, hi := a.lo, a.hi
		if !a.in {
			l, _ := angleAt(s.p0, lower)
			_, h := angleAt(s.p1, lower)
			fmt.Fprintf(&tail, "(declare-const theta Real)\n(assert (and (<= %s theta) (<= theta %s)))\n", fstr(l), fstr(h))
			t := o.real.tol - err
			goal = fmt.Sprintf("(or (> (- %s theta) %s) (< (- %s theta) %s))", e, fstr(t), e, fstr(-t))
		} else {
			goal = fmt.Sprintf("(or (> %s %s) (< %s %s))", e, fstr(hi-err), e, fstr(lo+err))
		}
	}
	sort.Strings(claims)
	return head.String() + k.sb.String() + strings.Join(conds, "") + tail.String() + "(assert (or " + strings.Join(claims, " ") + " " + goal + "))\n", open
}

func containsOp(t *Term, op Op) bool {
	for t.op == OpFCvt {
		t = t.args[0]
	}
	return t.op == op
}

func truncRat(r *big.Rat) int64 {
	q := new(big.Int).Quo(r.Num(), r.Denom())
	if !q.IsInt64() {
		if q.Sign() < 0 {
			return math.MinInt64
		}
		return math.MaxInt64
	}
	return q.Int64()
}

// sum declares the monomials of a polynomial and returns their sum and what
// writing the coefficients as floats leaves out.
func (b *boundCtx) sum(d bpoly, sb *strings.Builder) (string, float64) {
	keys := make([]string, 0, len(d))
	for k := range d {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s, slack := "(+ 0.0", 0.0
	for i, k := range keys {
		m := d[k]
		l, h := b.monoRange(m.vars)
		c, exact := m.c.Float64()
		if !exact {
			slack += up(math.Abs(c) * 2.3e-16 * math.Max(math.Abs(l), math.Abs(h)))
		}
		fmt.Fprintf(sb, "(declare-const m%d Real)\n(assert (and (<= %s m%d) (<= m%d %s)))\n", i, fstr(l), i, i, fstr(h))
		s += fmt.Sprintf(" (* %s m%d)", fstr(c), i)
	}
	return s + ")", slack
}

// sectorModels are vectors of a sector.
func (ex *Exec) sectorModels(o *Oblig, s sector) []Model {
	a := o.real.angle
	bx, by := stripCvt(a.x), stripCvt(a.y)
	if bx.op != OpVar || by.op != OpVar {
		return nil
	}
	isInt := containsOp(a.x, OpSIToF)
	var l []Model
	for _, p := range []float64{(s.p0 + s.p1) / 2, s.p0, s.p1} {
		c, d := direction(p)
		for _, m := range []float64{1, 3.3e5, 1 << 31, 1e17, 2e-6} {
			bits := func(t *Term, v float64) uint64 {
				switch {
				case isInt:
					return uint64(int64(math.Round(v))) & mask(t.w)
				case t.w == 32:
					return uint64(math.Float32bits(float32(v)))
				}
				return math.Float64bits(v)
			}
			l = append(l, Model{bx.name: bits(bx, c*m), by.name: bits(by, d*m)})
		}
	}
	return l
}

// decideAngles proves angle obligations; the result says which, and whether
// one was violated.
func (s *Session) decideAngles(ex *Exec, r *JobResult, obs []*Oblig, left func() time.Duration) ([]bool, bool) {
	ok := make([]bool, len(obs))
	bad := make([]bool, len(obs))
	var work []sector
	for i := range obs {
		ok[i] = true
		for p := 0.0; p < 8; p++ {
			work = append(work, sector{i, p, p + 1, nil})
		}
		for p := 0.0; p < 8; p += 2 {
			work = append(work, sector{i, p, p, nil})
		}
	}
	count := 0
	tried := 0
	try := func(w sector) bool {
		if tried++; tried > 3000 || len(w.cases) > 0 {
			return false
		}
		for _, m := range ex.sectorModels(obs[w.ob], w) {
			if s.tryModel(ex, r, obs[w.ob:w.ob+1], m) {
				return true
			}
		}
		return false
	}
	for len(work) > 0 && left() > 2*time.Second {
		var scripts []string
		var live []sector
		var opens []*Term
		var next []sector
		halve := func(w sector, open *Term) {
			if open != nil && w.p1-w.p0 < 1e-2 && len(w.cases) < 8 {
				for _, is := range []bool{false, true} {
					next = append(next, sector{w.ob, w.p0, w.p1, append(w.cases[:len(w.cases):len(w.cases)], sectorCase{open, is})})
				}
				return
			}
			m := (w.p0 + w.p1) / 2
			if w.p1-w.p0 < 1e-6 {
				if *fV && !bad[w.ob] {
					fmt.Fprintf(os.Stderr, "%s fails in the sector %v %v\n", obs[w.ob].msg, w.p0, w.p1)
				}
				bad[w.ob] = true
				return
			}
			next = append(next, sector{w.ob, w.p0, m, w.cases}, sector{w.ob, m, w.p1, w.cases})
		}
		for _, w := range work {
			if bad[w.ob] {
				continue
			}
			sc, open := ex.sectorScript(obs[w.ob], w)
			if sc == "" {
				halve(w, open)
				continue
			}
			scripts = append(scripts, sc)
			live = append(live, w)
			opens = append(opens, open)
		}
		count += len(live)
		for i, v := range realBatch(scripts, 5*time.Second, minDur(left(), 300*time.Second)) {
			if v != "unsat" {
				if live[i].p1-live[i].p0 < 1e-2 {
					dump(fmt.Sprintf("sector %d %g %g %s", live[i].ob, live[i].p0, live[i].p1, v), scripts[i])
				}
				if try(live[i]) {
					return ok, true
				}
				halve(live[i], opens[i])
			}
		}
		work = next
		if count > angleMax {
			break
		}
	}
	for _, w := range work {
		bad[w.ob] = true
	}
	for i := range ok {
		ok[i] = !bad[i]
		if ok[i] {
			r.byReal++
		}
	}
	if r.note == "" || *fV {
		r.note += " " + fmt.Sprintf("%d sectors", count)
	}
	return ok, false
}

// beyond that the obligation is left open
var angleMax = 400000
