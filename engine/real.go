package main

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Formula obligations are decided over the reals: floats become real numbers,
// the four operations exact, format conversions the identity.  Subterms that
// the code and the specification share become variables.  What this leaves
// out is rounding, overflow and NaN, which is stated with each property.
type realEnc struct {
	sb    strings.Builder
	cut   map[int32]bool
	names map[int32]string
	inv   map[string]string
	trigs []realTrig
	pows  []realPow
	vars  map[string]*Term // solver name -> input
	cuts  int
	bad   string
	rng   *frangeCtx // what the path says about floats
}

type realTrig struct {
	id      int32
	x, c, s string
}

type realPow struct {
	base *Term
	x, n string
}

// angle names the cosine and sine of an angle: a point on the unit circle,
// the same for equal angles, in the half planes where the angle puts it.
func (e *realEnc) angle(arg *Term) (c, s string) {
	for _, t := range e.trigs {
		if t.id == arg.id {
			return t.c, t.s
		}
	}
	c, s = fmt.Sprintf("cos%d", arg.id), fmt.Sprintf("sin%d", arg.id)
	x := e.term(arg)
	e.decl(c, "Real")
	e.decl(s, "Real")
	fmt.Fprintf(&e.sb, "(assert (and (<= (- 1.0) %s) (<= %s 1.0) (<= (- 1.0) %s) (<= %s 1.0)))\n", c, c, s, s)
	fmt.Fprintf(&e.sb, "(assert (= (+ (* %s %s) (* %s %s)) 1.0))\n", c, c, s, s)
	if x != "" {
		pi, half := fstr(math.Pi), fstr(math.Pi/2)
		fmt.Fprintf(&e.sb, "(assert (=> (and (< 0.0 %s) (< %s %s)) (> %s 0.0)))\n", x, x, pi, s)
		fmt.Fprintf(&e.sb, "(assert (=> (and (> 0.0 %s) (> %s (- %s))) (< %s 0.0)))\n", x, x, pi, s)
		fmt.Fprintf(&e.sb, "(assert (=> (and (< (- %s) %s) (< %s %s)) (> %s 0.0)))\n", half, x, x, half, c)
		for _, t := range e.trigs {
			if t.x != "" {
				fmt.Fprintf(&e.sb, "(assert (=> (= %s %s) (and (= %s %s) (= %s %s))))\n", x, t.x, c, t.c, s, t.s)
			}
		}
	}
	e.trigs = append(e.trigs, realTrig{arg.id, x, c, s})
	return
}

func newRealEnc(cut map[int32]bool) *realEnc {
	return &realEnc{cut: cut, names: map[int32]string{}, inv: map[string]string{}, vars: map[string]*Term{}}
}

func (e *realEnc) decl(n, sort string) { fmt.Fprintf(&e.sb, "(declare-const %s %s)\n", n, sort) }

func fconst(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.v)))
	}
	return math.Float64frombits(t.v)
}

// term returns the real expression of a float term, or "" when it has none.
func (e *realEnc) term(t *Term) string {
	if t.op == OpConst {
		f := fconst(t)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			e.bad = "non-finite constant"
			return ""
		}
		return ratStr(new(big.Rat).SetFloat64(f))
	}
	if n, ok := e.names[t.id]; ok {
		return n
	}
	n := fmt.Sprintf("r%d", t.id)
	def := func(s string) string {
		fmt.Fprintf(&e.sb, "(define-fun %s () Real %s)\n", n, s)
		e.names[t.id] = n
		return n
	}
	fresh := func() string {
		e.decl(n, "Real")
		e.names[t.id] = n
		return n
	}
	if e.cut[t.id] {
		e.cuts++
		return fresh()
	}
	a := func(i int) string { return e.term(t.args[i]) }
	two := func(op string) string {
		x, y := a(0), a(1)
		if x == "" || y == "" {
			return ""
		}
		return def("(" + op + " " + x + " " + y + ")")
	}
	switch t.op {
	case OpVar:
		fresh()
		e.vars[n] = t
		return n
	case OpFAdd:
		return two("+")
	case OpFMul:
		return two("*")
	case OpFDiv:
		x, y := a(0), a(1)
		if x == "" || y == "" {
			return ""
		}
		if t.args[1].op == OpConst {
			return def("(/ " + x + " " + y + ")")
		}
		i, ok := e.inv[y]
		if !ok {
			i = fmt.Sprintf("inv%d", t.args[1].id)
			e.decl(i, "Real")
			fmt.Fprintf(&e.sb, "(assert (= (* %s %s) 1.0))\n", i, y)
			e.inv[y] = i
		}
		return def("(* " + x + " " + i + ")")
	case OpFNeg:
		x := a(0)
		if x == "" {
			return ""
		}
		return def("(- " + x + ")")
	case OpFAbs:
		x := a(0)
		if x == "" {
			return ""
		}
		return def(fmt.Sprintf("(ite (< %s 0.0) (- %s) %s)", x, x, x))
	case OpFCvt:
		x := a(0)
		if x == "" {
			return ""
		}
		e.names[t.id] = x
		return x
	case OpFRound:
		if e.rng != nil {
			if f := e.rng.of(t); !f.nan && !f.all && f.lo == f.hi && !math.IsInf(f.lo, 0) {
				return ratStr(new(big.Rat).SetFloat64(f.lo))
			}
		}
		x := a(0)
		if x == "" {
			return ""
		}
		fresh()
		switch t.v {
		case 1:
			fmt.Fprintf(&e.sb, "(assert (and (<= %s %s) (< %s (+ %s 1.0))))\n", n, x, x, n)
		case 2:
			fmt.Fprintf(&e.sb, "(assert (and (>= %s %s) (> %s (- %s 1.0))))\n", n, x, x, n)
		}
		return n
	case OpFSqrt:
		x := a(0)
		if x == "" {
			return ""
		}
		fresh()
		fmt.Fprintf(&e.sb, "(assert (=> (>= %s 0.0) (and (>= %s 0.0) (= (* %s %s) %s))))\n", x, n, n, n, x)
		return n
	case OpIte:
		p, x, y := e.pred(t.args[0]), a(1), a(2)
		if p == "" || x == "" || y == "" {
			return ""
		}
		return def("(ite " + p + " " + x + " " + y + ")")
	case OpUF:
		switch t.name {
		case "sin", "cos":
			c, sn := e.angle(t.args[0])
			if t.name == "sin" {
				c = sn
			}
			e.names[t.id] = c
			return c
		case "exp", "cosh":
			fresh()
			fmt.Fprintf(&e.sb, "(assert (> %s 0.0))\n", n)
			return n
		case "pow":
			x := ""
			if b := t.args[0]; b.op == OpConst && fconst(b) > 0 && !math.IsInf(fconst(b), 0) {
				x = e.term(t.args[1])
			}
			fresh()
			if x != "" {
				fmt.Fprintf(&e.sb, "(assert (> %s 0.0))\n", n)
				for _, o := range e.pows {
					if o.base != t.args[0] {
						continue
					}
					fmt.Fprintf(&e.sb, "(assert (=> (= %s %s) (= %s %s)))\n", x, o.x, n, o.n)
					fmt.Fprintf(&e.sb, "(assert (=> (= %s (* 2.0 %s)) (= %s (* %s %s))))\n", x, o.x, n, o.n, o.n)
					fmt.Fprintf(&e.sb, "(assert (=> (= %s (* 2.0 %s)) (= %s (* %s %s))))\n", o.x, x, o.n, n, n)
					fmt.Fprintf(&e.sb, "(assert (=> (= %s (- %s)) (= (* %s %s) 1.0)))\n", x, o.x, n, o.n)
				}
				e.pows = append(e.pows, realPow{t.args[0], x, n})
			}
			return n
		}
		return fresh()
	}
	if t.w == 32 || t.w == 64 {
		return fresh()
	}
	e.bad = "no real meaning"
	return ""
}

// pred translates a condition; "" when it has no real meaning.
func (e *realEnc) pred(t *Term) string {
	if t.op == OpConst {
		return constStr(0, t.v)
	}
	switch t.op {
	case OpNot:
		if x := e.pred(t.args[0]); x != "" {
			return "(not " + x + ")"
		}
		return ""
	case OpAnd, OpOr:
		x, y := e.pred(t.args[0]), e.pred(t.args[1])
		if x == "" || y == "" {
			return ""
		}
		return map[Op]string{OpAnd: "(and ", OpOr: "(or "}[t.op] + x + " " + y + ")"
	case OpFLt, OpFLe, OpFEq:
		if c := e.infCmp(t); c != "" {
			return c
		}
		x, y := e.term(t.args[0]), e.term(t.args[1])
		if x == "" || y == "" {
			return ""
		}
		return "(" + map[Op]string{OpFLt: "<", OpFLe: "<=", OpFEq: "="}[t.op] + " " + x + " " + y + ")"
	case OpFIsNaN:
		return "false"
	case OpIte:
		p, x, y := e.pred(t.args[0]), e.pred(t.args[1]), e.pred(t.args[2])
		if p == "" || x == "" || y == "" {
			return ""
		}
		return "(ite " + p + " " + x + " " + y + ")"
	}
	// anything else is left open
	n := fmt.Sprintf("q%d", t.id)
	if e.names[t.id] == "" {
		e.decl(n, "Bool")
		e.names[t.id] = n
	}
	return n
}

// infCmp folds comparisons with an infinite constant.
func (e *realEnc) infCmp(t *Term) string {
	for i := 0; i < 2; i++ {
		x := t.args[i]
		if x.op != OpConst {
			continue
		}
		f := fconst(x)
		if math.IsNaN(f) {
			return "false"
		}
		if !math.IsInf(f, 0) {
			continue
		}
		if t.op == OpFEq {
			return "false"
		}
		// x < +Inf, -Inf < x
		if (i == 1) == (f > 0) {
			return "true"
		}
		return "false"
	}
	return ""
}

// sharedCut finds the non-trivial subterms common to got and want.
func sharedCut(got, want *Term) map[int32]bool {
	mark := func(t *Term) map[int32]*Term {
		m := map[int32]*Term{}
		st := []*Term{t}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if m[x.id] != nil {
				continue
			}
			m[x.id] = x
			st = append(st, x.args...)
		}
		return m
	}
	g, w := mark(got), mark(want)
	cut := map[int32]bool{}
	for id, t := range g {
		if id == got.id || id == want.id {
			continue
		}
		if _, ok := w[id]; ok && (t.w == 32 || t.w == 64) && t.op != OpConst {
			cut[id] = true
		}
	}
	return cut
}

func (ex *Exec) formulaScript(o *Oblig, cut map[int32]bool, margin float64) (string, *realEnc) {
	e := newRealEnc(cut)
	e.rng = newFrangeCtx(ex)
	for _, p := range o.pc {
		e.rng.fact(p, true)
	}
	g, w := e.term(o.real.got), e.term(o.real.want)
	if g == "" || w == "" {
		return "", e
	}
	if g == w {
		return "", e
	}
	for _, p := range o.pc {
		if q := e.pred(p); q != "" {
			fmt.Fprintf(&e.sb, "(assert %s)\n", q)
		}
	}
	if margin == 0 {
		fmt.Fprintf(&e.sb, "(assert (not (= %s %s)))\n", g, w)
	} else {
		for n := range e.vars {
			fmt.Fprintf(&e.sb, "(assert (and (<= (- 64.0) %s) (<= %s 64.0)))\n", n, n)
		}
		fmt.Fprintf(&e.sb, "(assert (or (> (- %s %s) %g) (< (- %s %s) (- %g))))\n", g, w, margin, g, w, margin)
	}
	return e.sb.String(), e
}

// realBatch decides independent scripts in one solver process each.
func realBatch(scripts []string, per time.Duration, total time.Duration) []string {
	res := make([]string, len(scripts))
	const chunk = 24
	var wg sync.WaitGroup
	ctx, cancel := context.WithTimeout(context.Background(), total)
	defer cancel()
	for lo := 0; lo < len(scripts); lo += chunk {
		hi := lo + chunk
		if hi > len(scripts) {
			hi = len(scripts)
		}
		wg.Add(1)
		go func(lo, hi int) {
			defer wg.Done()
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			var sb strings.Builder
			for _, s := range scripts[lo:hi] {
				fmt.Fprintf(&sb, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n", per.Milliseconds(), s)
			}
			cmd := exec.CommandContext(ctx, "z3-new", "-in", "-memory:3000")
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			cmd.Cancel = func() error { killGroup(cmd); return nil }
			cmd.Stdin = strings.NewReader(sb.String())
			t0 := time.Now()
			out, _ := cmd.Output()
			d := time.Since(t0) / time.Duration(hi-lo)
			i := lo
			for _, l := range strings.Split(string(out), "\n") {
				l = strings.TrimSpace(l)
				switch {
				case l == "sat" || l == "unsat" || l == "unknown" || l == "timeout":
					if i < hi {
						res[i] = l
						i++
					}
				case strings.HasPrefix(l, "(error") && os.Getenv("VDEBUG") != "":
					fmt.Fprintln(os.Stderr, "z3-new said:", l)
				}
			}
			for i := lo; i < hi; i++ {
				if res[i] != "sat" && res[i] != "unsat" {
					res[i] = "unknown"
				}
				note(res[i], d)
			}
		}(lo, hi)
	}
	wg.Wait()
	return res
}

func dump(name, s string) {
	if d := os.Getenv("VDUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%s%d.smt2", d, name, time.Now().UnixNano()), []byte(s+"(check-sat)\n"), 0644)
	}
}

// decideFormulas says which formula obligations hold over the reals; a
// violation found on the way ends the job.
func (s *Session) decideFormulas(ex *Exec, r *JobResult, obs []*Oblig, left func() time.Duration) (ok []bool, stop bool) {
	ok = make([]bool, len(obs))
	open := make([]int, len(obs))
	for i := range obs {
		open[i] = i
	}
	sub := func() []*Oblig {
		var l []*Oblig
		for _, i := range open {
			l = append(l, obs[i])
		}
		return l
	}
	for pass := 0; pass < 2 && len(open) > 0; pass++ {
		var scripts []string
		var idx, rest []int
		for _, i := range open {
			o := obs[i]
			var cut map[int32]bool
			if pass == 0 {
				cut = sharedCut(o.real.got, o.real.want)
			}
			sc, e := ex.formulaScript(o, cut, 0)
			if sc == "" {
				if e.bad == "" {
					ok[i] = true // both sides are the same real expression
				} else {
					rest = append(rest, i)
				}
				continue
			}
			dump("real", sc)
			scripts = append(scripts, sc)
			idx = append(idx, i)
		}
		per := 4 * time.Second
		if pass == 1 {
			per = 20 * time.Second
		}
		for k, v := range realBatch(scripts, per, minDur(left()/3, 120*time.Second)) {
			if v == "unsat" {
				ok[idx[k]] = true
			} else {
				rest = append(rest, idx[k])
			}
		}
		open = rest
		if pass == 0 && len(open) > 0 && s.search(ex, r, sub(), minDur(left()/6, 2*time.Second), nil) {
			return nil, true
		}
	}
	for _, i := range open {
		if left() < 2*time.Second {
			break
		}
		sc, e := ex.formulaScript(obs[i], nil, 0.01)
		if sc == "" {
			continue
		}
		if s.realModel(ex, r, obs[i], sc, e, minDur(left()/4, 10*time.Second)) {
			return nil, true
		}
	}
	return ok, false
}

// realModel asks for a real counterexample, rounds it to floats and tries it.
func (s *Session) realModel(ex *Exec, r *JobResult, o *Oblig, sc string, e *realEnc, lim time.Duration) bool {
	var sb strings.Builder
	sb.WriteString(sc + "(check-sat)\n")
	if len(e.vars) > 0 {
		sb.WriteString("(get-value (")
		for n := range e.vars {
			sb.WriteString(n + " ")
		}
		sb.WriteString("))\n")
	}
	res := oneShot(context.Background(), []string{"z3-new", "-in", "pp.decimal=true", "pp.decimal_precision=17", fmt.Sprintf("-T:%d", int(lim.Seconds())+1)}, sb.String(), lim)
	note(res.Res, res.Dur)
	if res.Res != "sat" {
		return false
	}
	m := Model{}
	for n, t := range e.vars {
		f := parseReal(res.Real[n])
		if t.w == 32 {
			m[t.name] = uint64(math.Float32bits(float32(f)))
		} else {
			m[t.name] = math.Float64bits(f)
		}
	}
	return s.tryModel(ex, r, []*Oblig{o}, m)
}

// parseReal reads the decimal or rational the solver printed.
func parseReal(s string) float64 {
	toks := tokenize(s)
	pos := 0
	var rd func() float64
	rd = func() float64 {
		if pos >= len(toks) {
			return 0
		}
		t := toks[pos]
		pos++
		if t != "(" {
			f, _ := new(big.Float).SetString(strings.TrimSuffix(t, "?"))
			if f == nil {
				return 0
			}
			v, _ := f.Float64()
			return v
		}
		op := toks[pos]
		pos++
		a := rd()
		if op == "-" && pos < len(toks) && toks[pos] == ")" {
			pos++
			return -a
		}
		b := rd()
		pos++
		switch op {
		case "/":
			return a / b
		case "-":
			return a - b
		case "+":
			return a + b
		}
		return a * b
	}
	return rd()
}
