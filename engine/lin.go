package main

// GF(2) reasoning: bit-vector terms built from xor, shifts, masks and
// selections between values that differ by a constant are affine functions
// of their "atom" bits. Conjunctions of equations between such terms are
// decided by elimination; the SAT solver alone is hopeless on them (checksum
// chains of some hundred bytes).

type linForm []uint64 // bit 0: the constant; bit i+1: atom i

func (f linForm) get(i int) bool { return i>>6 < len(f) && f[i>>6]>>uint(i&63)&1 == 1 }

func linXor(a, b linForm) linForm {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	if len(a) < len(b) {
		a, b = b, a
	}
	r := make(linForm, len(a))
	copy(r, a)
	for i, v := range b {
		r[i] ^= v
	}
	n := len(r)
	for n > 0 && r[n-1] == 0 {
		n--
	}
	return r[:n]
}

var linOne = linForm{1}

// isConst: the form is 0 or 1.
func (f linForm) isConst() (uint64, bool) {
	switch len(f) {
	case 0:
		return 0, true
	case 1:
		return f[0] & 1, f[0]>>1 == 0
	}
	return 0, false
}

type linCtx struct {
	c     *Ctx
	atoms map[[2]int32]int
	memo  map[int32][]linForm
	work  int
}

func newLin(c *Ctx) *linCtx {
	return &linCtx{c: c, atoms: map[[2]int32]int{}, memo: map[int32][]linForm{}}
}

func (l *linCtx) atom(t *Term, bit int) linForm {
	k := [2]int32{t.id, int32(bit)}
	i, ok := l.atoms[k]
	if !ok {
		i = len(l.atoms) + 1
		l.atoms[k] = i
	}
	f := make(linForm, i>>6+1)
	f[i>>6] = 1 << uint(i&63)
	return f
}

func (l *linCtx) atomsOf(t *Term) []linForm {
	n := int(t.w)
	if n == 0 {
		n = 1
	}
	r := make([]linForm, n)
	for i := range r {
		r[i] = l.atom(t, i)
	}
	return r
}

// forms gives the bits of a term (one for a boolean).
func (l *linCtx) forms(t *Term) []linForm {
	if r, ok := l.memo[t.id]; ok {
		return r
	}
	r := l.build(t)
	l.memo[t.id] = r
	l.work += len(r)
	return r
}

func (l *linCtx) build(t *Term) []linForm {
	n := int(t.w)
	if n == 0 {
		n = 1
	}
	r := make([]linForm, n)
	arg := func(i int) []linForm { return l.forms(t.args[i]) }
	konst := func(i int) (uint64, bool) {
		a := t.args[i]
		return a.v, a.op == OpConst
	}
	switch t.op {
	case OpConst:
		for i := range r {
			if t.v>>uint(i)&1 == 1 {
				r[i] = linOne
			}
		}
		return r
	case OpBXor:
		a, b := arg(0), arg(1)
		for i := range r {
			r[i] = linXor(a[i], b[i])
		}
		return r
	case OpBNot, OpNot:
		a := arg(0)
		for i := range r {
			r[i] = linXor(a[i], linOne)
		}
		return r
	case OpBAnd, OpBOr:
		a, b := arg(0), arg(1)
		for i := range r {
			x, xc := a[i].isConst()
			y, yc := b[i].isConst()
			one := uint64(0)
			if t.op == OpBOr {
				one = 1
			}
			switch {
			case xc && x == one:
				r[i] = a[i]
			case yc && y == one:
				r[i] = b[i]
			case xc:
				r[i] = b[i]
			case yc:
				r[i] = a[i]
			default:
				if same(a[i], b[i]) {
					r[i] = a[i]
				} else {
					r[i] = l.atom(t, i)
				}
			}
		}
		return r
	case OpShl, OpLshr, OpAshr:
		k, ok := konst(1)
		if !ok {
			return l.atomsOf(t)
		}
		a := arg(0)
		for i := range r {
			j := i
			if k > uint64(n) {
				k = uint64(n)
			}
			if t.op == OpShl {
				j -= int(k)
			} else {
				j += int(k)
			}
			if j >= 0 && j < n {
				r[i] = a[j]
			} else if t.op == OpAshr && j >= n {
				r[i] = a[n-1]
			}
		}
		return r
	case OpExtract:
		a := arg(0)
		copy(r, a[int(t.v):])
		return r
	case OpZExt, OpSExt:
		a := arg(0)
		copy(r, a)
		if t.op == OpSExt {
			for i := len(a); i < n; i++ {
				r[i] = a[len(a)-1]
			}
		}
		return r
	case OpConcat:
		k := n
		for i := range t.args { // the first one is the highest
			a := arg(i)
			k -= len(a)
			copy(r[k:], a)
		}
		return r
	case OpNeg:
		a := arg(0)
		for i := 1; i < n; i++ {
			if len(a[i]) != 0 {
				return l.atomsOf(t)
			}
		}
		for i := range r {
			r[i] = a[0]
		}
		return r
	case OpAdd:
		a, b := arg(0), arg(1)
		for i := range r {
			if len(a[i]) != 0 && len(b[i]) != 0 {
				return l.atomsOf(t)
			}
		}
		for i := range r {
			r[i] = linXor(a[i], b[i])
		}
		return r
	case OpIte:
		c, a, b := arg(0), arg(1), arg(2)
		for i := range r {
			d := linXor(a[i], b[i])
			k, ok := d.isConst()
			if !ok {
				r[i] = l.atom(t, i)
				continue
			}
			r[i] = b[i]
			if k == 1 {
				r[i] = linXor(b[i], c[0])
			}
		}
		return r
	case OpEq:
		if t.args[0].w <= 1 {
			a, b := arg(0), arg(1)
			r[0] = linXor(linXor(a[0], b[0]), linOne)
			return r
		}
		// an equation with a single non-constant bit is still affine
		a, b := arg(0), arg(1)
		var open linForm
		cnt := 0
		for i := range a {
			d := linXor(a[i], b[i])
			if k, ok := d.isConst(); ok {
				if k == 1 {
					return r // false
				}
				continue
			}
			open = d
			cnt++
		}
		switch cnt {
		case 0:
			r[0] = linOne
			return r
		case 1:
			r[0] = linXor(open, linOne)
			return r
		}
	}
	return l.atomsOf(t)
}

func same(a, b linForm) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// linSys is a set of equations (form = 0) in echelon form.
type linSys struct {
	rows  map[int]linForm
	wrong bool
}

func (s *linSys) reduce(f linForm) linForm {
	for {
		p := lead(f)
		if p <= 0 {
			return f
		}
		r, ok := s.rows[p]
		if !ok {
			// keep looking for lower pivots
			break
		}
		f = linXor(f, r)
	}
	for p := lead(f); p > 0; {
		if f.get(p) {
			if r, ok := s.rows[p]; ok {
				f = linXor(f, r)
			}
		}
		p--
	}
	return f
}

func lead(f linForm) int {
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] != 0 {
			for b := 63; b >= 0; b-- {
				if f[i]>>uint(b)&1 == 1 {
					return i*64 + b
				}
			}
		}
	}
	return -1
}

func (s *linSys) add(f linForm) {
	f = s.reduce(f)
	switch p := lead(f); {
	case p == 0:
		s.wrong = true
	case p > 0:
		s.rows[p] = f
	}
}

func (s *linSys) implied(fs []linForm) bool {
	if s.wrong {
		return true
	}
	for _, f := range fs {
		if lead(s.reduce(f)) >= 0 {
			return false
		}
	}
	return true
}

// eqs gives the equations a boolean term stands for, when it is a
// conjunction of affine ones.
func (l *linCtx) eqs(t *Term, out *[]linForm) {
	switch t.op {
	case OpAnd:
		for _, a := range t.args {
			l.eqs(a, out)
		}
	case OpEq:
		if t.args[0].w > 0 {
			a, b := l.forms(t.args[0]), l.forms(t.args[1])
			for i := range a {
				*out = append(*out, linXor(a[i], b[i]))
			}
			return
		}
		fallthrough
	default:
		*out = append(*out, linXor(l.forms(t)[0], linOne))
	}
}

// unsat reports whether the conjunction is unsatisfiable by linear reasoning
// (false means nothing).
func (l *linCtx) unsat(lits []*Term, depth int) bool {
	s := &linSys{rows: map[int]linForm{}}
	var negs, ors, beqs []*Term
	var flat func(ts []*Term)
	flat = func(ts []*Term) {
		for _, t := range ts {
			switch {
			case t.op == OpAnd:
				flat(t.args)
			case t.op == OpOr:
				ors = append(ors, t)
			case t.op == OpEq && t.args[0].w == 0, t.op == OpNot && t.args[0].op == OpEq && t.args[0].args[0].w == 0:
				beqs = append(beqs, t)
			case t.op == OpNot && t.args[0].op == OpAnd:
				negs = append(negs, t.args[0])
			case t.op == OpNot && t.args[0].op == OpEq && t.args[0].args[0].w > 1:
				negs = append(negs, t.args[0])
				fallthrough
			default:
				var fs []linForm
				l.eqs(t, &fs)
				for _, f := range fs {
					s.add(f)
				}
			}
		}
	}
	flat(lits)
	if s.wrong {
		return true
	}
	for _, n := range negs {
		var fs []linForm
		l.eqs(n, &fs)
		if s.implied(fs) {
			return true
		}
	}
	if depth == 0 {
		return false
	}
	for i, t := range beqs {
		neg := t.op == OpNot
		if neg {
			t = t.args[0]
		}
		p, q := t.args[0], t.args[1]
		rest := append([]*Term{}, lits...)
		_ = i
		var a, b []*Term
		if neg {
			a, b = []*Term{p, l.c.Not(q)}, []*Term{l.c.Not(p), q}
		} else {
			a, b = []*Term{p, q}, []*Term{l.c.Not(p), l.c.Not(q)}
		}
		drop := func(x []*Term) []*Term {
			var r []*Term
			for _, y := range rest {
				if y != beqs[i] {
					r = append(r, y)
				}
			}
			return append(r, x...)
		}
		if l.unsat(drop(a), depth-1) && l.unsat(drop(b), depth-1) {
			return true
		}
	}
	for _, t := range ors {
		all := true
		for _, d := range t.args {
			var r []*Term
			for _, y := range lits {
				if y != t {
					r = append(r, y)
				}
			}
			if !l.unsat(append(r, d), depth-1) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// xorHeavy: the terms contain many exclusive-ors of inputs.
func xorHeavy(ts []*Term, min int) bool {
	seen := map[int32]bool{}
	n, steps := 0, 0
	st := append([]*Term(nil), ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t.id] {
			continue
		}
		seen[t.id] = true
		if steps++; steps > 200000 {
			return false
		}
		if t.op == OpBXor && t.args[0].op != OpConst {
			if n++; n >= min {
				return true
			}
		}
		st = append(st, t.args...)
	}
	return false
}

func (ex *Exec) linear() *linCtx {
	if ex.lin == nil || ex.lin.work > 400000 {
		ex.lin = newLin(ex.c)
	}
	return ex.lin
}

// xorChain: a condition about long chains of exclusive-ors (a checksum),
// which a SAT solver had better not see.
func (ex *Exec) xorChain(t *Term) bool {
	if t.op == OpConst || t.op == OpVar {
		return false
	}
	if ex.xorMemo == nil {
		ex.xorMemo = map[int32]bool{}
	}
	v, ok := ex.xorMemo[t.id]
	if !ok {
		v = xorHeavy([]*Term{t}, 100)
		ex.xorMemo[t.id] = v
	}
	return v
}

// withoutChains drops the checksum conditions from a conjunction.
func (ex *Exec) withoutChains(t *Term) (*Term, bool) {
	if t.op != OpAnd || !ex.xorChain(t) {
		return t, false
	}
	dropped := false
	var keep []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == OpAnd {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		if ex.xorChain(t) {
			dropped = true
			return
		}
		keep = append(keep, t)
	}
	rec(t)
	return ex.conjTerms(keep), dropped
}

func (ex *Exec) conjTerms(ts []*Term) *Term {
	r := ex.c.True
	for _, t := range ts {
		r = ex.c.And(r, t)
	}
	return r
}
