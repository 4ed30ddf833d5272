package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type FMode int

const (
	ModeUF  FMode = iota // float arithmetic uninterpreted, comparisons exact
	ModeFP               // IEEE-754 theory
	ModeMix              // as ModeUF, but conversions and rounding in the IEEE theory
)

func (m FMode) String() string { return [...]string{"uf", "fp", "mix"}[m] }

// Emitter prints terms as SMT-LIB definitions.
type Emitter struct {
	mode FMode
	bv   map[int32]string
	fp   map[int32]string
	sb   strings.Builder
	used map[string]bool
	vars []*Term
	ufs  map[string]bool
}

func NewEmitter(mode FMode) *Emitter {
	e := &Emitter{mode: mode, bv: map[int32]string{}, fp: map[int32]string{}, used: map[string]bool{}, ufs: map[string]bool{}}
	e.prelude()
	return e
}

func (e *Emitter) prelude() {
	w := &e.sb
	for _, n := range []int{32, 64} {
		m, inf := "#x7fffffff", "#x7f800000"
		sgn := "#x80000000"
		if n == 64 {
			m, inf, sgn = "#x7fffffffffffffff", "#x7ff0000000000000", "#x8000000000000000"
		}
		bv := fmt.Sprintf("(_ BitVec %d)", n)
		fmt.Fprintf(w, "(define-fun fnan%d ((a %s)) Bool (bvugt (bvand a %s) %s))\n", n, bv, m, inf)
		fmt.Fprintf(w, "(define-fun fzero%d ((a %s)) Bool (= (bvand a %s) (bvsub a a)))\n", n, bv, m)
		// order key: monotone map from non-NaN floats to unsigned integers (with -0 just below +0)
		fmt.Fprintf(w, "(define-fun fkey%d ((a %s)) %s (ite (= ((_ extract %d %d) a) #b1) (bvnot a) (bvor a %s)))\n", n, bv, bv, n-1, n-1, sgn)
		fmt.Fprintf(w, "(define-fun flt%d ((a %s) (b %s)) Bool (and (not (fnan%d a)) (not (fnan%d b)) (not (and (fzero%d a) (fzero%d b))) (bvult (fkey%d a) (fkey%d b))))\n", n, bv, bv, n, n, n, n, n, n)
		fmt.Fprintf(w, "(define-fun fle%d ((a %s) (b %s)) Bool (and (not (fnan%d a)) (not (fnan%d b)) (or (and (fzero%d a) (fzero%d b)) (bvule (fkey%d a) (fkey%d b)))))\n", n, bv, bv, n, n, n, n, n, n)
		fmt.Fprintf(w, "(define-fun feq%d ((a %s) (b %s)) Bool (and (not (fnan%d a)) (not (fnan%d b)) (or (= a b) (and (fzero%d a) (fzero%d b)))))\n", n, bv, bv, n, n, n, n)
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func fsort(w uint8) string {
	if w == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}
func tofp(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

func constStr(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func (e *Emitter) declUF(name string, w uint8, args []*Term) {
	if e.ufs[name] {
		return
	}
	e.ufs[name] = true
	s := "(declare-fun " + name + " ("
	for _, a := range args {
		s += sortOf(a.w) + " "
	}
	s += ") " + sortOf(w) + ")\n"
	e.sb.WriteString(s)
}

// Flush returns the text produced since the last call.
func (e *Emitter) Flush() string {
	s := e.sb.String()
	e.sb.Reset()
	return s
}

func symName(s string) string { return "|" + s + "|" }

// BV returns the name of the bit-vector (or Bool) form of t.
func (e *Emitter) BV(t *Term) string {
	if t.op == OpConst {
		return constStr(t.w, t.v)
	}
	if s, ok := e.bv[t.id]; ok {
		return s
	}
	e.order(t)
	return e.bv[t.id]
}

// order emits definitions for every sub-term of t, children first, without
// deep recursion.
func (e *Emitter) order(t *Term) {
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := e.bv[f.t.id]; ok || f.t.op == OpConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OpConst {
				if _, ok := e.bv[a.id]; !ok {
					st = append(st, fr{a, 0})
				}
			}
			continue
		}
		e.define(f.t)
		st = st[:len(st)-1]
	}
}

func (e *Emitter) FP(t *Term) string {
	if s, ok := e.fp[t.id]; ok {
		return s
	}
	e.BV(t)
	if s, ok := e.fp[t.id]; ok {
		return s
	}
	n := fmt.Sprintf("f%d", t.id)
	fmt.Fprintf(&e.sb, "(define-fun %s () %s (%s %s))\n", n, fsort(t.w), tofp(t.w), e.BV(t))
	e.fp[t.id] = n
	return n
}

func (e *Emitter) define(t *Term) {
	n := fmt.Sprintf("t%d", t.id)
	if t.op == OpVar {
		n = symName(t.name)
		fmt.Fprintf(&e.sb, "(declare-fun %s () %s)\n", n, sortOf(t.w))
		e.bv[t.id] = n
		e.vars = append(e.vars, t)
		return
	}
	def := func(s string) {
		fmt.Fprintf(&e.sb, "(define-fun %s () %s %s)\n", n, sortOf(t.w), s)
		e.bv[t.id] = n
	}
	a := func(i int) string { return e.BV(t.args[i]) }
	bin := func(op string) { def("(" + op + " " + a(0) + " " + a(1) + ")") }
	aw := uint8(0)
	if len(t.args) > 0 {
		aw = t.args[0].w
	}
	switch t.op {
	case OpNot:
		def("(not " + a(0) + ")")
		return
	case OpAnd:
		bin("and")
		return
	case OpOr:
		bin("or")
		return
	case OpEq:
		bin("=")
		return
	case OpUlt:
		bin("bvult")
		return
	case OpUle:
		bin("bvule")
		return
	case OpSlt:
		bin("bvslt")
		return
	case OpSle:
		bin("bvsle")
		return
	case OpAdd:
		bin("bvadd")
		return
	case OpSub:
		bin("bvsub")
		return
	case OpMul:
		bin("bvmul")
		return
	case OpUDiv:
		bin("bvudiv")
		return
	case OpURem:
		bin("bvurem")
		return
	case OpSDiv:
		bin("bvsdiv")
		return
	case OpSRem:
		bin("bvsrem")
		return
	case OpBAnd:
		bin("bvand")
		return
	case OpBOr:
		bin("bvor")
		return
	case OpBXor:
		bin("bvxor")
		return
	case OpBNot:
		def("(bvnot " + a(0) + ")")
		return
	case OpNeg:
		def("(bvneg " + a(0) + ")")
		return
	case OpShl:
		bin("bvshl")
		return
	case OpLshr:
		bin("bvlshr")
		return
	case OpAshr:
		bin("bvashr")
		return
	case OpConcat:
		bin("concat")
		return
	case OpExtract:
		def(fmt.Sprintf("((_ extract %d %d) %s)", int(t.v)+int(t.w)-1, t.v, a(0)))
		return
	case OpZExt:
		def(fmt.Sprintf("((_ zero_extend %d) %s)", t.w-aw, a(0)))
		return
	case OpSExt:
		def(fmt.Sprintf("((_ sign_extend %d) %s)", t.w-aw, a(0)))
		return
	case OpUF:
		e.declUF("uf_"+t.name+fmt.Sprint(t.w), t.w, t.args)
		s := "(uf_" + t.name + fmt.Sprint(t.w)
		for i := range t.args {
			s += " " + a(i)
		}
		if len(t.args) == 0 {
			def("uf_" + t.name + fmt.Sprint(t.w))
		} else {
			def(s + ")")
		}
		return
	case OpFNeg:
		if e.mode == ModeFP && e.hasFP(t.args[0]) {
			break
		}
		def("(bvxor " + a(0) + " " + constStr(aw, signBit(aw)) + ")")
		return
	case OpFAbs:
		if e.mode == ModeFP && e.hasFP(t.args[0]) {
			break
		}
		def("(bvand " + a(0) + " " + constStr(aw, mask(aw)>>1) + ")")
		return
	}
	sit := func() string {
		if aw == 64 {
			return a(0)
		}
		return fmt.Sprintf("((_ sign_extend %d) %s)", 64-aw, a(0))
	}
	mix := e.mode == ModeMix
	if mix {
		switch t.op {
		case OpFCvt, OpFToSI, OpFToSIR, OpSIToF, OpUIToF, OpFRound:
			mix = false
		}
	}
	if e.mode == ModeUF || mix {
		uf := func(name string, args ...string) {
			ts := t.args
			if t.op == OpSIToF {
				ts = []*Term{{w: 64}}
			}
			e.declUF(name, t.w, ts)
			def("(" + name + " " + strings.Join(args, " ") + ")")
		}
		switch t.op {
		case OpIte:
			def("(ite " + a(0) + " " + a(1) + " " + a(2) + ")")
		case OpFAdd:
			uf(fmt.Sprintf("fadd%d", t.w), a(0), a(1))
		case OpFMul:
			uf(fmt.Sprintf("fmul%d", t.w), a(0), a(1))
		case OpFDiv:
			uf(fmt.Sprintf("fdiv%d", t.w), a(0), a(1))
		case OpFSqrt:
			uf(fmt.Sprintf("fsqrt%d", t.w), a(0))
		case OpFLt:
			def(fmt.Sprintf("(flt%d %s %s)", aw, a(0), a(1)))
		case OpFLe:
			def(fmt.Sprintf("(fle%d %s %s)", aw, a(0), a(1)))
		case OpFEq:
			def(fmt.Sprintf("(feq%d %s %s)", aw, a(0), a(1)))
		case OpFIsNaN:
			def(fmt.Sprintf("(fnan%d %s)", aw, a(0)))
		case OpFCvt:
			uf(fmt.Sprintf("fcvt%d_%d", aw, t.w), a(0))
		case OpFToSI:
			uf(fmt.Sprintf("ftosi%d_%d", aw, t.w), a(0))
		case OpFToSIR:
			uf(fmt.Sprintf("ftosir%d_%d", aw, t.w), a(0))
		case OpSIToF:
			uf(fmt.Sprintf("sitof%d", t.w), sit())
		case OpUIToF:
			uf(fmt.Sprintf("uitof%d", t.w), a(0))
		case OpFRound:
			uf(fmt.Sprintf("fround%d_%d", t.v, t.w), a(0))
		default:
			panic(fmt.Sprintf("emit op %d", t.op))
		}
		return
	}
	// IEEE theory
	fdef := func(s string) {
		fn := fmt.Sprintf("f%d", t.id)
		fmt.Fprintf(&e.sb, "(define-fun %s () %s %s)\n", fn, fsort(t.w), s)
		e.fp[t.id] = fn
		def("(fp.to_ieee_bv " + fn + ")")
	}
	f := func(i int) string { return e.FP(t.args[i]) }
	switch t.op {
	case OpIte:
		if e.hasFP(t.args[1]) || e.hasFP(t.args[2]) {
			fdef("(ite " + a(0) + " " + f(1) + " " + f(2) + ")")
			return
		}
		def("(ite " + a(0) + " " + a(1) + " " + a(2) + ")")
	case OpFNeg:
		fdef("(fp.neg " + f(0) + ")")
	case OpFAbs:
		fdef("(fp.abs " + f(0) + ")")
	case OpFAdd:
		fdef("(fp.add RNE " + f(0) + " " + f(1) + ")")
	case OpFMul:
		fdef("(fp.mul RNE " + f(0) + " " + f(1) + ")")
	case OpFDiv:
		fdef("(fp.div RNE " + f(0) + " " + f(1) + ")")
	case OpFSqrt:
		fdef("(fp.sqrt RNE " + f(0) + ")")
	case OpFLt:
		def("(fp.lt " + f(0) + " " + f(1) + ")")
	case OpFLe:
		def("(fp.leq " + f(0) + " " + f(1) + ")")
	case OpFEq:
		def("(fp.eq " + f(0) + " " + f(1) + ")")
	case OpFIsNaN:
		def("(fp.isNaN " + f(0) + ")")
	case OpFCvt:
		fdef("(" + tofp(t.w) + " RNE " + f(0) + ")")
	case OpFToSI, OpFToSIR:
		rm := "RTZ"
		if t.op == OpFToSIR {
			rm = "RNE"
		}
		if t.op == OpFToSI {
			// in range when -2^(w-1)-1 < x < 2^(w-1)
			mant := 24
			if aw == 64 {
				mant = 53
			}
			lo := "(fp.leq (" + tofp(aw) + " RNE " + constDec(int(t.w)-1, true) + ") " + f(0) + ")"
			if int(t.w) < mant {
				lo = fmt.Sprintf("(fp.lt (%s RNE (- %d.0)) %s)", tofp(aw), uint64(1)<<uint(t.w-1)+1, f(0))
			}
			hi := "(fp.lt " + f(0) + " (" + tofp(aw) + " RNE " + constDec(int(t.w)-1, false) + "))"
			def(fmt.Sprintf("(ite (and %s %s) ((_ fp.to_sbv %d) RTZ %s) %s)", lo, hi, t.w, f(0), constStr(t.w, signBit(t.w))))
			return
		}
		// in range when -2^(w-1) <= rounded < 2^(w-1)
		fn := fmt.Sprintf("r%d", t.id)
		fmt.Fprintf(&e.sb, "(define-fun %s () %s (fp.roundToIntegral %s %s))\n", fn, fsort(aw), rm, f(0))
		lim := "(" + tofp(aw) + " RNE " + constDec(int(t.w)-1, false) + ")"
		nlim := "(" + tofp(aw) + " RNE " + constDec(int(t.w)-1, true) + ")"
		def(fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv %d) RTZ %s) %s)",
			nlim, fn, fn, lim, t.w, fn, constStr(t.w, signBit(t.w))))
	case OpSIToF:
		fdef("(" + tofp(t.w) + " RNE " + a(0) + ")")
	case OpUIToF:
		if t.w == 32 {
			fdef("((_ to_fp_unsigned 8 24) RNE " + a(0) + ")")
		} else {
			fdef("((_ to_fp_unsigned 11 53) RNE " + a(0) + ")")
		}
	case OpFRound:
		fdef("(fp.roundToIntegral " + [...]string{"RNE", "RTN", "RTP", "RTZ"}[t.v] + " " + f(0) + ")")
	default:
		panic(fmt.Sprintf("emit op %d", t.op))
	}
}

func constDec(exp int, neg bool) string {
	s := fmt.Sprintf("%d.0", uint64(1)<<uint(exp))
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (e *Emitter) hasFP(t *Term) bool {
	if t.op == OpConst {
		return false
	}
	_, ok := e.fp[t.id]
	return ok
}

// ---- solver processes ----

type SolveStats struct {
	Queries int64
	Nanos   int64
	Unsat   int64
	Sat     int64
	Unknown int64
}

var stats SolveStats

func note(res string, d time.Duration) {
	atomic.AddInt64(&stats.Queries, 1)
	atomic.AddInt64(&stats.Nanos, int64(d))
	switch res {
	case "unsat":
		atomic.AddInt64(&stats.Unsat, 1)
	case "sat":
		atomic.AddInt64(&stats.Sat, 1)
	default:
		atomic.AddInt64(&stats.Unknown, 1)
	}
}

// Inc is an incremental z3 session used for feasibility questions.
type Inc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	em   *Emitter
	dead bool
	ms   int
}

func killGroup(cmd *exec.Cmd) {
	if cmd.Process != nil {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
}

func NewInc(mode FMode, ms int) *Inc {
	cmd := exec.Command("z3-new", "-in", "-memory:3000")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	s := &Inc{cmd: cmd, in: in, out: bufio.NewReader(out), em: NewEmitter(mode), ms: ms}
	if err := cmd.Start(); err != nil {
		s.dead = true
		return s
	}
	fmt.Fprintf(in, "(set-option :timeout %d)\n(set-option :global-declarations true)\n", ms)
	return s
}

func (s *Inc) Close() {
	if s.cmd.Process != nil {
		killGroup(s.cmd)
		s.cmd.Wait()
	}
}

var incN int

// Check decides the conjunction of the given booleans.
func (s *Inc) Check(ts ...*Term) string {
	if s.dead {
		return "unknown"
	}
	t0 := time.Now()
	names := make([]string, len(ts))
	for i, t := range ts {
		names[i] = s.em.BV(t)
	}
	io.WriteString(s.in, s.em.Flush())
	io.WriteString(s.in, "(push)\n(assert (and true "+strings.Join(names, " ")+"))\n(check-sat)\n(pop)\n")
	if d := os.Getenv("VDUMPINC"); d != "" {
		e2 := NewEmitter(s.em.mode)
		txt := ""
		for _, t := range ts {
			txt += "(assert " + e2.BV(t) + ")\n"
		}
		incN++
		os.WriteFile(fmt.Sprintf("%s/i%d.smt2", d, incN), []byte(e2.Flush()+txt+"(check-sat)\n"), 0644)
	}
	done := make(chan string, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		if err != nil {
			l = "dead"
		}
		done <- strings.TrimSpace(l)
	}()
	select {
	case r := <-done:
		if r != "sat" && r != "unsat" && r != "unknown" {
			if os.Getenv("VDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "inc solver said:", r)
			}
			s.dead = true
			r = "unknown"
		}
		note(r, time.Since(t0))
		return r
	case <-time.After(time.Duration(s.ms)*time.Millisecond*3 + 5*time.Second):
		s.dead = true
		killGroup(s.cmd)
		note("unknown", time.Since(t0))
		return "unknown"
	}
}

type SolveResult struct {
	Res    string
	Model  Model
	Real   map[string]string
	Solver string
	Dur    time.Duration
}

var solverSem = make(chan struct{}, 8)

// oneShot runs a solver on a script; the script must end with a single
// check-sat followed by an optional get-value.
func oneShot(ctx context.Context, argv []string, script string, timeout time.Duration) SolveResult {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	ctx2, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	if ctx2.Err() != nil {
		return SolveResult{Res: "unknown", Solver: argv[0]}
	}
	cmd := exec.CommandContext(ctx2, argv[0], argv[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { killGroup(cmd); return nil }
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	r := SolveResult{Res: "unknown", Solver: argv[0], Dur: time.Since(t0)}
	text := string(out)
	lines := strings.SplitN(text, "\n", 2)
	first := strings.TrimSpace(lines[0])
	switch first {
	case "sat", "unsat":
		r.Res = first
	default:
		if os.Getenv("VDEBUG") != "" && strings.HasPrefix(first, "(error") {
			fmt.Fprintln(os.Stderr, "solver", argv[0], "said:", first)
			os.WriteFile("/tmp/bad.smt2", []byte(script), 0644)
		}
	}
	if r.Res == "sat" && len(lines) > 1 {
		r.Model, r.Real = parseModel(lines[1])
	}
	return r
}

// parseModel reads ((|x| #x00) (|y| true) (r (/ 1.0 2.0)))
func parseModel(s string) (Model, map[string]string) {
	m := Model{}
	rl := map[string]string{}
	toks := tokenize(s)
	if len(toks) == 0 || toks[0] != "(" {
		return m, rl
	}
	i := 1
	for i < len(toks) && toks[i] == "(" {
		i++
		if i >= len(toks) {
			break
		}
		name := strings.Trim(toks[i], "|")
		i++
		// value expression
		start := i
		depth := 0
		for i < len(toks) {
			if toks[i] == "(" {
				depth++
			} else if toks[i] == ")" {
				if depth == 0 {
					break
				}
				depth--
			}
			i++
		}
		val := toks[start:i]
		i++
		if len(val) == 1 {
			v := val[0]
			switch {
			case strings.HasPrefix(v, "#x"):
				u, _ := strconv.ParseUint(v[2:], 16, 64)
				m[name] = u
				continue
			case strings.HasPrefix(v, "#b"):
				u, _ := strconv.ParseUint(v[2:], 2, 64)
				m[name] = u
				continue
			case v == "true":
				m[name] = 1
				continue
			case v == "false":
				m[name] = 0
				continue
			}
		}
		rl[name] = strings.Join(val, " ")
	}
	return m, rl
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// Solve decides the conjunction of ts with a portfolio.
func Solve(mode FMode, ts []*Term, timeout time.Duration) SolveResult {
	em := NewEmitter(mode)
	var names []string
	for _, t := range ts {
		names = append(names, em.BV(t))
	}
	body := em.Flush()
	script := "(set-logic ALL)\n" + body
	for _, n := range names {
		script += "(assert " + n + ")\n"
	}
	script += "(check-sat)\n"
	if len(em.vars) > 0 {
		var sb strings.Builder
		sb.WriteString(script)
		sb.WriteString("(get-value (")
		for _, v := range em.vars {
			sb.WriteString(symName(v.name))
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		script = sb.String()
	}
	if d := os.Getenv("VDUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte(script), 0644)
	}
	return portfolio(script, mode, timeout)
}

func portfolio(script string, mode FMode, timeout time.Duration) SolveResult {
	z3s := strings.Replace(script, "(set-logic ALL)\n", "", 1)
	// a first, cheap attempt with one solver
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	q := 3 * time.Second
	if timeout < q {
		q = timeout
	}
	t0 := time.Now()
	r := oneShot(ctx, []string{"z3-new", "-in", "-memory:4000"}, z3s, q)
	if r.Res != "unknown" || timeout <= q {
		note(r.Res, time.Since(t0))
		return r
	}
	ch := make(chan SolveResult, 3)
	n := 2
	go func() { ch <- oneShot(ctx, []string{"z3-new", "-in", "-memory:4000"}, z3s, timeout) }()
	go func() { ch <- oneShot(ctx, []string{"z3", "-in", "-memory:4000"}, z3s, timeout) }()
	if mode == ModeUF {
		n = 3
		go func() {
			ch <- oneShot(ctx, []string{"cvc5", "--lang=smt2", "--produce-models", "--bv-solver=bitblast"}, script, timeout)
		}()
	}
	best := SolveResult{Res: "unknown"}
	for i := 0; i < n; i++ {
		r := <-ch
		if r.Res != "unknown" {
			best = r
			break
		}
	}
	cancel()
	note(best.Res, time.Since(t0))
	return best
}
