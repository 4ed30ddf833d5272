package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Job struct {
	Prop, Name, Func string
	Params           []int
}

func (j *Job) String() string { return fmt.Sprintf("%s/%s%v", j.Prop, j.Name, j.Params) }

var (
	fProp    = flag.String("prop", "", "property id")
	fRepo    = flag.String("repo", "/repo", "repository")
	fVerif   = flag.String("verif", "/verif", "verification directory")
	fJob     = flag.String("job", "", "only jobs whose name contains this")
	fV       = flag.Bool("v", false, "verbose")
	fReplay  = flag.String("replay", "", "replay a violation file")
	fJobs    = flag.Int("j", 8, "parallel jobs")
	fJobTime = flag.Duration("jobtime", 0, "time per job")
	fTotal   = flag.Duration("total", 0, "total time")
	fKeep    = flag.Bool("keep", false, "keep build directory")
	fNoWit   = flag.Bool("nowit", false, "skip native witness runs")
)

var tier = "quick"
var seed int64 = 1

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	cleanup()
	os.Exit(3)
}

var workDir string

func cleanup() {
	killChildren()
	if workDir != "" && !*fKeep {
		os.RemoveAll(workDir)
	}
}

// killChildren ends the solvers and native runs that are still going.
func killChildren() {
	fs, _ := filepath.Glob("/proc/[0-9]*/stat")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		k := strings.LastIndex(string(b), ")")
		v := strings.Fields(string(b)[k+1:])
		if len(v) > 1 && v[1] == strconv.Itoa(os.Getpid()) {
			if pid, err := strconv.Atoi(filepath.Base(filepath.Dir(f))); err == nil {
				syscall.Kill(pid, syscall.SIGKILL)
			}
		}
	}
}

// harness packages: directory under harness/ -> directory under the repo
var harnessPkgs = []string{"dsp", "dsp/ax25", "dsp/dtmf", "dsp/internal/cpu", "borip"}

// buildOverlay lays the harness files of a property over the repository.
func buildOverlay(prop string, drop map[string]bool) (map[string]string, []string, error) {
	ov := map[string]string{}
	ov[filepath.Join(*fRepo, "go.mod")] = filepath.Join(*fVerif, "harness/go.mod")
	ov[filepath.Join(*fRepo, "verifnd/nd.go")] = filepath.Join(*fVerif, "harness/nd/nd.go")
	lp := strings.ToLower(prop)
	var pkgs []string
	for _, p := range harnessPkgs {
		dir := filepath.Join(*fVerif, "harness", p)
		ents, _ := os.ReadDir(dir)
		n := 0
		var common []string
		for _, e := range ents {
			nm := e.Name()
			if !(strings.HasSuffix(nm, ".go") || strings.HasSuffix(nm, ".s")) || drop[nm] {
				continue
			}
			if strings.HasPrefix(nm, "common") {
				common = append(common, nm)
				continue
			}
			// file names list the properties they serve: c01_c02_x.go
			use := false
			for _, part := range strings.Split(strings.TrimSuffix(strings.TrimSuffix(nm, ".go"), ".s"), "_") {
				if part == lp {
					use = true
				}
			}
			if use {
				ov[filepath.Join(*fRepo, p, "zz_verif_"+nm)] = filepath.Join(dir, nm)
				n++
			}
		}
		if n > 0 {
			for _, nm := range common {
				ov[filepath.Join(*fRepo, p, "zz_verif_"+nm)] = filepath.Join(dir, nm)
			}
			pkgs = append(pkgs, p)
			if p == "borip" {
				f, err := genClient(filepath.Join(*fRepo, p))
				if err != nil {
					return nil, nil, err
				}
				ov[filepath.Join(*fRepo, p, "zz_verif_flags.go")] = f
			}
			if p == "dsp" {
				f, err := genFlags(filepath.Join(*fRepo, p))
				if err != nil {
					return nil, nil, err
				}
				ov[filepath.Join(*fRepo, p, "zz_verif_flags.go")] = f
				if prop == "C09" {
					if err := featureOverlay(ov); err != nil {
						return nil, nil, err
					}
				}
			}
		}
	}
	if len(pkgs) == 0 {
		return nil, nil, fmt.Errorf("no harness for %s", prop)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n")
	for _, p := range pkgs {
		fmt.Fprintf(&b, "\t_ %q\n", modPath+"/"+p)
	}
	fmt.Fprintf(&b, ")\n")
	imp := filepath.Join(workDir, "imports.go")
	os.WriteFile(imp, b.Bytes(), 0644)
	md := filepath.Join(*fRepo, "dsp/verifmain")
	ov[filepath.Join(md, "imports.go")] = imp
	ov[filepath.Join(md, "main.go")] = filepath.Join(*fVerif, "harness/main/main.go")
	return ov, pkgs, nil
}

// genFlags writes setters for every package-level boolean of the package:
// the CPU feature switches.
func genFlags(dir string) (string, error) {
	ctx := build.Default
	ctx.GOARCH, ctx.GOOS = "amd64", "linux"
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return "", err
	}
	names := boolVars(dir, bp.GoFiles)
	sort.Strings(names)
	if len(names) > 5 {
		names = names[:5]
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nconst vNumFlags = %d\n\nfunc vSetFlags(m int) {\n", bp.Name, len(names))
	for i, n := range names {
		fmt.Fprintf(&b, "\t%s = m&%d != 0\n", n, 1<<uint(i))
	}
	fmt.Fprintf(&b, "}\n\nfunc vFlagNames() []string { return %#v }\n", names)
	f := filepath.Join(workDir, "flags.go")
	return f, os.WriteFile(f, b.Bytes(), 0644)
}

// genClient writes a constructor of a connected BorIP client, whatever its
// fields are called.
func genClient(dir string) (string, error) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package borip\n\nimport (\n\t\"bufio\"\n\t\"net\"\n)\n\nfunc vNewBorIP(c net.Conn, rd *bufio.Reader, wr *bufio.Writer) *BorIP {\n\tb := &BorIP{}\n")
	fs := token.NewFileSet()
	ents, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range ents {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(af, func(n ast.Node) bool {
			t, ok := n.(*ast.TypeSpec)
			if !ok || t.Name.Name != "BorIP" {
				return true
			}
			st, ok := t.Type.(*ast.StructType)
			if !ok {
				return true
			}
			for _, fd := range st.Fields.List {
				v := ""
				switch types.ExprString(fd.Type) {
				case "net.Conn", "io.ReadWriteCloser", "io.Closer":
					v = "c"
				case "*bufio.Reader":
					v = "rd"
				case "*bufio.Writer":
					v = "wr"
				case "*bufio.ReadWriter":
					v = "bufio.NewReadWriter(rd, wr)"
				}
				for _, nm := range fd.Names {
					if v != "" {
						fmt.Fprintf(&b, "\tb.%s = %s\n", nm.Name, v)
					}
				}
				if len(fd.Names) == 0 && v != "" {
					e := types.ExprString(fd.Type)
					fmt.Fprintf(&b, "\tb.%s = %s\n", e[strings.LastIndex(e, ".")+1:], v)
				}
			}
			return false
		})
	}
	fmt.Fprintf(&b, "\treturn b\n}\n")
	f := filepath.Join(workDir, "client.go")
	return f, os.WriteFile(f, b.Bytes(), 0644)
}

// boolVars finds the package-level booleans.
func boolVars(dir string, files []string) []string {
	var names []string
	fs := token.NewFileSet()
	for _, f := range files {
		af, err := parser.ParseFile(fs, filepath.Join(dir, f), nil, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				isBool := false
				if id, ok := v.Type.(*ast.Ident); ok && id.Name == "bool" {
					isBool = true
				}
				if v.Type == nil && len(v.Values) == len(v.Names) {
					switch x := v.Values[0].(type) {
					case *ast.SelectorExpr:
						if strings.HasPrefix(x.Sel.Name, "Has") {
							isBool = true
						}
					case *ast.Ident:
						isBool = x.Name == "true" || x.Name == "false"
					}
				}
				if isBool {
					for _, n := range v.Names {
						if n.Name != "_" {
							names = append(names, n.Name)
						}
					}
				}
			}
		}
	}
	return names
}

type Session struct {
	race    string // the native binary with the race detector, for C33
	overlay map[string]string
	pkgs    []string
	prog    *Program
	bin     string
	jobs    []*Job
	dropped []string
}

func writeOverlayJSON(ov map[string]string) string {
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	f := filepath.Join(workDir, "overlay.json")
	os.WriteFile(f, j, 0644)
	return f
}

func setup(prop string) *Session {
	drop := map[string]bool{}
	for attempt := 0; attempt < 6; attempt++ {
		ov, pkgs, err := buildOverlay(prop, drop)
		if err != nil {
			fatal("%v (dropped %v)", err, drop)
		}
		s := &Session{overlay: ov, pkgs: pkgs, bin: filepath.Join(workDir, "native")}
		oj := writeOverlayJSON(ov)
		type lp struct {
			p   *Program
			err error
		}
		ch := make(chan lp, 1)
		go func() {
			var pats []string
			for _, p := range pkgs {
				pats = append(pats, "./"+p)
			}
			pats = append(pats, "runtime", "errors")
			p, err := LoadProgram(*fRepo, ov, pats)
			ch <- lp{p, err}
		}()
		cmd := exec.Command("go", "build", "-overlay", oj, "-o", s.bin, "./dsp/verifmain")
		cmd.Dir = *fRepo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		r := <-ch
		if err != nil {
			n := 0
			for _, l := range strings.Split(string(out), "\n") {
				if i := strings.Index(l, "zz_verif_"); i >= 0 {
					nm := l[i+len("zz_verif_"):]
					if k := strings.Index(nm, ".go:"); k >= 0 {
						nm = nm[:k+3]
						if !drop[nm] && nm != "flags.go" && !strings.HasPrefix(nm, "common") {
							drop[nm] = true
							n++
						}
					}
				}
			}
			if n == 0 {
				fatal("native build failed: %v\n%s", err, out)
			}
			fmt.Printf("note: harness files that no longer compile with this tree are set aside: %v\n", keys(drop))
			continue
		}
		if r.err != nil {
			fatal("loading SSA: %v", r.err)
		}
		s.prog = r.p
		s.dropped = keys(drop)
		s.prog.bin = loadBinary(s.bin)
		if prop == "C33" {
			rb := s.bin + "-race"
			cmd := exec.Command("go", "build", "-race", "-overlay", oj, "-o", rb, "./dsp/verifmain")
			cmd.Dir = *fRepo
			cmd.Env = append(goEnv(), "CGO_ENABLED=1")
			if out, err := cmd.CombinedOutput(); err != nil {
				fmt.Printf("note: no race detector for the replays: %v %s\n", err, out)
			} else {
				s.race = rb
			}
		}
		if prop == "C09" {
			if err := writeExt(s.prog.bin); err != nil {
				fatal("%v", err)
			}
		}
		s.list(prop)
		return s
	}
	fatal("cannot build harness")
	return nil
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *Session) list(prop string) {
	cmd := exec.Command(s.bin, "-list")
	cmd.Env = append(os.Environ(), "VERIF_TIER="+tier)
	out, err := cmd.Output()
	if err != nil {
		fatal("listing jobs: %v", err)
	}
	var l []struct {
		Prop, Name, Func string
		Params           [][]int
	}
	if err := json.Unmarshal(out, &l); err != nil {
		fatal("job list: %v", err)
	}
	for _, e := range l {
		if e.Prop != prop {
			continue
		}
		for _, p := range e.Params {
			j := &Job{Prop: e.Prop, Name: e.Name, Func: e.Func, Params: p}
			if *fJob != "" && !strings.Contains(j.String(), *fJob) {
				continue
			}
			s.jobs = append(s.jobs, j)
		}
	}
}

type nativeReq struct {
	Prop, Name string
	Params     []int
	Model      map[string]string
	Trace      bool
}
type nativeRes struct {
	Failures []string
	Traces   []string
	Vacuous  bool
	Crash    string
}

// native runs one job on the compiled code.
func (s *Session) native(j *Job, m Model, trace bool) nativeRes {
	rq := nativeReq{Prop: j.Prop, Name: j.Name, Params: j.Params, Model: map[string]string{}, Trace: trace}
	for k, v := range m {
		rq.Model[k] = strconv.FormatUint(v, 16)
	}
	return s.nativeReq(rq)
}

func (s *Session) nativeReq(rq nativeReq) nativeRes {
	in, _ := json.Marshal(rq)
	bin := s.bin
	if s.race != "" {
		bin = s.race
	}
	cmd := exec.Command(bin, "-run")
	cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "GORACE=exitcode=66")
	cmd.Stdin = bytes.NewReader(in)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return nativeRes{Crash: err.Error()}
	}
	t := time.AfterFunc(60*time.Second, func() { killGroup(cmd) })
	err := cmd.Wait()
	late := !t.Stop()
	var r nativeRes
	if err != nil || json.Unmarshal(out.Bytes(), &r) != nil {
		msg := errb.String()
		if len(msg) > 400 {
			msg = msg[:400]
		}
		if late {
			r.Crash = "timeout " + msg
		} else {
			r.Crash = fmt.Sprintf("%v: %s", err, msg)
		}
	}
	return r
}

// ---- running jobs ----

type JobResult struct {
	job       *Job
	obligs    int
	byUF      int
	byFP      int
	byReal    int
	lin       int // of those, by linear algebra over GF(2)
	folded    int
	goals     int
	open      []*Oblig
	violation *Violation
	err       string
	states    int64
	steps     int64
	paths     int
	fns       map[string]bool
	asm       map[string]bool
	insns     map[string]int
	merges    int64
	feasQ     int
	dur       time.Duration
	symDur    time.Duration
	wit       string // "ok", "mismatch: ...", ""
	witModel  Model
	inputs    int
	note      string
	fatalWit  bool
}

type Violation struct {
	Prop, Name string
	Params     []int
	Model      map[string]string
	Obligation string
	Failures   []string
	Crash      string
	Tier       string
}

func (s *Session) runJob(j *Job, budget time.Duration) (r *JobResult) {
	t0 := time.Now()
	r = &JobResult{job: j, fns: map[string]bool{}, asm: map[string]bool{}, insns: map[string]int{}}
	ex := NewExec(s.prog)
	ex.job = j
	ex.deadline = t0.Add(budget / 2)
	defer func() {
		if ex.inc != nil {
			ex.inc.Close()
		}
		r.dur = time.Since(t0)
		r.states, r.steps, r.merges, r.feasQ = ex.states, ex.steps, ex.merges, ex.feasQ
		for f := range ex.fns {
			r.fns[f.String()] = true
		}
		for f := range ex.asmFns {
			r.asm[f] = true
		}
		for k, v := range ex.insns {
			r.insns[k] = v
		}
		r.inputs = len(ex.c.vars)
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r.err = "not encodable: " + u.msg
			} else {
				r.err = fmt.Sprintf("engine error: %v", e)
				if *fV {
					fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
				}
			}
			// a path that could not be encoded still leaves the search for a
			// concrete counterexample on the rest
			if r.violation == nil {
				func() {
					defer func() { recover() }()
					s.search(ex, r, ex.obligs, 3*time.Second, nil)
				}()
			}
		}
	}()
	i := strings.LastIndexByte(j.Func, '.')
	fn := s.prog.lookup(j.Func[:i], j.Func[i+1:])
	if fn == nil {
		unsup("harness function %s", j.Func)
	}
	st := &State{gen: ex.newGen(), objs: map[int]*Object{}}
	outs := ex.call(st, Fn{F: fn}, nil)
	r.symDur = time.Since(t0)
	r.paths = len(outs)
	var reached []*Term
	for _, o := range outs {
		if o.pan != "" {
			kind := "panic"
			if o.fault {
				kind = "fault"
			}
			ex.obligs = append(ex.obligs, &Oblig{pc: o.st.pc.list(), cond: ex.c.False, msg: o.pan, kind: kind})
			continue
		}
		reached = append(reached, ex.conj(o.st.pc.list()))
	}
	if len(reached) == 0 && len(ex.obligs) == 0 {
		r.note = "vacuous: no path reaches the end of the harness"
	}
	if ex.inc != nil {
		ex.inc.Close()
		ex.inc = nil
	}
	s.decide(ex, r, t0.Add(budget))
	if r.violation == nil && !*fNoWit {
		s.witness(ex, r, reached)
	}
	return r
}

func (ex *Exec) conj(ts []*Term) *Term {
	t := ex.c.True
	for i := len(ts) - 1; i >= 0; i-- {
		t = ex.c.And(t, ts[i])
	}
	return t
}

// goal is the negated obligation; equalities the simplifier already folded
// are rebuilt so that the solver sees both sides.
func (ex *Exec) goal(o *Oblig) *Term {
	c := ex.c
	neg := c.Not(o.cond)
	if o.cond.IsTrue() && o.got != nil && o.want != nil {
		neg = c.mk(OpNot, 0, 0, "", c.mk(OpEq, 0, 0, "", o.got, o.want))
	}
	pc := ex.conj(o.pc)
	if neg.op == OpConst {
		return c.And(pc, neg)
	}
	if pc.IsTrue() {
		return neg
	}
	return c.mk(OpAnd, 0, 0, "", pc, neg)
}

func (ex *Exec) disj(ts []*Term) *Term {
	c := ex.c
	if len(ts) == 0 {
		return c.False
	}
	for len(ts) > 1 {
		var n []*Term
		for i := 0; i < len(ts); i += 2 {
			if i+1 == len(ts) {
				n = append(n, ts[i])
				continue
			}
			a, b := ts[i], ts[i+1]
			if a.IsFalse() {
				n = append(n, b)
			} else if b.IsFalse() {
				n = append(n, a)
			} else if a.IsTrue() || b.IsTrue() {
				n = append(n, c.True)
			} else {
				n = append(n, c.mk(OpOr, 0, 0, "", a, b))
			}
		}
		ts = n
	}
	return ts[0]
}

func minDur(a, b time.Duration) time.Duration {
	if a < b {
		return a
	}
	return b
}

// tryModel checks a candidate on the real semantics and then natively.
func (s *Session) tryModel(ex *Exec, r *JobResult, obs []*Oblig, m Model) bool {
	ev := ex.evaluator(m)
	for _, o := range obs {
		if !ex.fails(ev, o) {
			continue
		}
		if s.confirm(ex, r, o, m) {
			return true
		}
		break
	}
	return false
}

func (ex *Exec) fails(ev *Evaluator, o *Oblig) bool {
	for _, p := range o.pc {
		if ev.Eval(p) == 0 {
			return false
		}
	}
	if o.real != nil && o.real.want != nil {
		g, w := math.Float64frombits(ev.Eval(o.real.got)), math.Float64frombits(ev.Eval(o.real.want))
		if g == w || math.IsNaN(g) && math.IsNaN(w) {
			return false
		}
		if o.real.formula || o.real.close {
			sc := math.Float64frombits(ev.Eval(o.real.scale))
			if math.IsInf(w, 0) || math.IsNaN(w) || math.IsInf(sc, 0) || math.IsNaN(sc) || math.Abs(w) > 1e30 || sc > 1e30 {
				return false
			}
			return !(math.Abs(g-w) <= o.real.tol*(math.Abs(sc)+1e-30))
		}
		return !(math.Abs(g-w) <= o.real.tol)
	}
	return ev.Eval(o.cond) == 0
}

var confirmBudget = struct {
	sync.Mutex
	n map[string]int
}{n: map[string]int{}}

func (s *Session) confirm(ex *Exec, r *JobResult, o *Oblig, m Model) bool {
	confirmBudget.Lock()
	k := r.job.String()
	confirmBudget.n[k]++
	over := confirmBudget.n[k] > 12
	confirmBudget.Unlock()
	if over {
		return false
	}
	full := Model{}
	ev := ex.evaluator(m)
	for _, v := range ex.c.vars {
		full[v.name] = ev.Eval(v)
	}
	nr := s.native(r.job, full, false)
	if *fV {
		fmt.Fprintf(os.Stderr, "%s: candidate for %q natively: %d failures vacuous=%v crash=%s %v\n", r.job, o.msg, len(nr.Failures), nr.Vacuous, nr.Crash, first(nr.Failures, 3))
	}
	if len(nr.Failures) == 0 && nr.Crash == "" {
		r.note = fmt.Sprintf("candidate for %q did not reproduce natively", o.msg)
		return false
	}
	if len(nr.Failures) == 0 && strings.HasPrefix(nr.Crash, "timeout") {
		return false
	}
	v := &Violation{Prop: r.job.Prop, Name: r.job.Name, Params: r.job.Params, Obligation: o.msg, Failures: first(nr.Failures, 20), Crash: nr.Crash, Tier: tier, Model: map[string]string{}}
	for k, x := range full {
		v.Model[k] = strconv.FormatUint(x, 16)
	}
	r.violation = v
	return true
}

func first(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// randModel draws an assignment; floats get a mixture of special and
// ordinary values.
func (ex *Exec) randModel(rng *rand.Rand, style int) Model {
	m := Model{}
	sp := []float64{0, 1, -1, 0.5, 2, -0.0, 127, -128, 1e-3, 100, 3, -7, 32767, -32768, 1e6, math.Pi}
	for _, v := range ex.c.vars {
		if v.flt {
			var f float64
			switch style % 4 {
			case 0:
				f = rng.NormFloat64()
			case 1:
				f = sp[rng.Intn(len(sp))]
			case 2:
				f = float64(rng.Intn(200001)-100000) / 100
			default:
				m[v.name] = rng.Uint64() & mask(v.w)
				continue
			}
			if v.w == 32 {
				m[v.name] = uint64(math.Float32bits(float32(f)))
			} else {
				m[v.name] = math.Float64bits(f)
			}
			continue
		}
		if v.w <= 16 || style%3 != 1 {
			m[v.name] = rng.Uint64() & mask(v.w)
		} else {
			m[v.name] = uint64(int64(rng.Intn(401)-200)) & mask(v.w)
		}
	}
	return m
}

// intoRange moves the floats that the path bounds into their ranges.
func (ex *Exec) intoRange(m Model, rng *rand.Rand, pc []*Term, ends bool) {
	k := newFrangeCtx(ex)
	for _, p := range pc {
		k.fact(p, true)
	}
	for _, v := range ex.c.vars {
		if !v.flt || k.facts[v] == nil {
			continue
		}
		f := k.of(v)
		x := math.NaN()
		if !f.all {
			if f.lo > f.hi || math.IsInf(f.lo, 0) && math.IsInf(f.hi, 0) {
				continue
			}
			lo, hi := math.Max(f.lo, -1e300), math.Min(f.hi, 1e300)
			if v.w == 32 {
				lo, hi = math.Max(f.lo, -1e38), math.Min(f.hi, 1e38)
			}
			x = lo + (hi-lo)*rng.Float64()
			if ends && rng.Intn(2) == 0 {
				x = []float64{lo, hi}[rng.Intn(2)]
			}
		}
		if v.w == 32 {
			m[v.name] = uint64(math.Float32bits(float32(x)))
		} else {
			m[v.name] = math.Float64bits(x)
		}
	}
}

// search looks for a concrete failing assignment of undecided obligations;
// used only to find candidates when no proof was obtained.
func (s *Session) search(ex *Exec, r *JobResult, obs []*Oblig, budget time.Duration, base Model) bool {
	if len(obs) == 0 || budget <= 0 {
		return false
	}
	rng := rand.New(rand.NewSource(seed))
	end := time.Now().Add(budget)
	for n := 0; n < 4000 && time.Now().Before(end); n++ {
		m := ex.randModel(rng, n)
		if n%2 == 1 {
			ex.intoRange(m, rng, obs[n%len(obs)].pc, n%4 == 1)
		}
		if s.tryModel(ex, r, obs, m) {
			return true
		}
	}
	return false
}

// witness runs the job natively on one model of a completed path and
// compares everything the harness observed with the encoding.
func (s *Session) witness(ex *Exec, r *JobResult, reached []*Term) {
	if len(reached) == 0 {
		return
	}
	rng := rand.New(rand.NewSource(seed + int64(len(ex.c.vars))))
	var m Model
	pc := ex.disj(reached)
	ok := false
	for k := 0; k < 20 && !ok; k++ {
		m = ex.randModel(rng, []int{2, 0, 1, 3}[k%4])
		if k%2 == 1 && len(ex.obligs) > 0 {
			ex.intoRange(m, rng, ex.obligs[rng.Intn(len(ex.obligs))].pc, false)
		}
		ok = ex.evaluator(m).Eval(pc) == 1
	}
	if !ok {
		res := Solve(ModeUF, []*Term{pc}, 10*time.Second)
		if res.Res == "unsat" {
			r.note = "vacuous: the assumptions of the harness cannot be met"
			return
		}
		if res.Res == "sat" {
			m = res.Model
			ok = ex.evaluator(m).Eval(pc) == 1
		}
		if !ok {
			r.wit = "none"
			return
		}
	}
	full := Model{}
	ev := ex.evaluator(m)
	for _, v := range ex.c.vars {
		full[v.name] = ev.Eval(v)
	}
	nr := s.native(r.job, full, true)
	if nr.Crash != "" || nr.Vacuous {
		r.wit = fmt.Sprintf("mismatch: native run vacuous=%v %s", nr.Vacuous, nr.Crash)
		return
	}
	if len(nr.Failures) > 0 {
		// the code really fails on this input although no obligation said so
		r.wit = "mismatch: native failure " + nr.Failures[0]
		v := &Violation{Prop: r.job.Prop, Name: r.job.Name, Params: r.job.Params, Obligation: "concordance run", Failures: first(nr.Failures, 20), Tier: tier, Model: map[string]string{}}
		for k, x := range full {
			v.Model[k] = strconv.FormatUint(x, 16)
		}
		r.violation = v
		return
	}
	want := map[string]int{}
	for _, o := range ex.obligs {
		if o.got == nil {
			continue
		}
		live := true
		for _, p := range o.pc {
			if ev.Eval(p) == 0 {
				live = false
				break
			}
		}
		if !live {
			continue
		}
		v := ev.Eval(o.got)
		if !o.flt {
			v = uint64(sx(v, o.got.w))
		} else if isNaNBits(o.got.w, v) {
			v = 0x7ff8000000000000
			if o.got.w == 32 {
				v = 0x7fc00000
			}
		}
		msg := strings.ReplaceAll(o.msg, " ", "_")
		if k := strings.LastIndex(o.msg, " ["); k >= 0 && strings.HasSuffix(o.msg, "]") {
			msg = strings.ReplaceAll(o.msg[:k], " ", "_") + " " + o.msg[k+1:]
		} else {
			msg += " [0]"
		}
		if strings.HasSuffix(msg, "[-1]") {
			continue // symbolic index: not comparable by text
		}
		want[fmt.Sprintf("%s %x", msg, v)]++
	}
	got := map[string]int{}
	for _, t := range nr.Traces {
		got[t]++
	}
	for k, n := range want {
		if got[k] < n {
			r.wit = fmt.Sprintf("mismatch: encoding says %q, the compiled code disagrees", k)
			if *fV {
				p := strings.Join(strings.Fields(k)[:2], " ")
				for g := range got {
					if strings.HasPrefix(g, p+" ") {
						r.wit += " (" + g + ")"
					}
				}
			}
			return
		}
	}
	r.wit = "ok"
	r.witModel = full
}

func decodeModel(m map[string]string) Model {
	r := Model{}
	for k, v := range m {
		r[k], _ = strconv.ParseUint(v, 16, 64)
	}
	return r
}

func main() {
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	flag.Parse()
	debug.SetGCPercent(200)
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	var err error
	workDir, err = os.MkdirTemp("", "verif-")
	if err != nil {
		fatal("%v", err)
	}
	defer cleanup()
	if *fReplay != "" {
		replay(*fReplay)
		return
	}
	t0 := time.Now()
	s := setup(*fProp)
	setupDur := time.Since(t0)
	total := *fTotal
	if total == 0 {
		total = 600 * time.Second
		if tier == "thorough" {
			total = 3 * time.Hour
		}
	}
	per := *fJobTime
	if per == 0 {
		per = 200 * time.Second
		if tier == "thorough" {
			per = 40 * time.Minute
		}
	}
	end := t0.Add(total)
	if *fV {
		fmt.Fprintf(os.Stderr, "setup %.1fs, %d jobs\n", setupDur.Seconds(), len(s.jobs))
	}
	results := make([]*JobResult, len(s.jobs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, *fJobs)
	var mu sync.Mutex
	nviol := 0
	var grace time.Time // when to stop after the first violation
	order := jobOrder(s.jobs)
	done := make(chan bool)
	go func() {
		for _, i := range order {
			i := i
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				mu.Lock()
				stop := nviol >= 3 || !grace.IsZero() && time.Now().After(grace)
				left := time.Until(end)
				if stop || left < 2*time.Second {
					results[i] = &JobResult{job: s.jobs[i], err: "not run: " + map[bool]string{true: "violations already found", false: "time budget used"}[stop]}
					mu.Unlock()
					return
				}
				mu.Unlock()
				r := s.runJob(s.jobs[i], minDur(per, left))
				mu.Lock()
				defer mu.Unlock()
				results[i] = r
				if r.violation != nil {
					nviol++
					if grace.IsZero() {
						grace = time.Now().Add(20 * time.Second)
					}
				}
				if *fV {
					fmt.Fprintf(os.Stderr, "%-40s %6.2fs sym %.2fs obl %d uf %d fp %d real %d open %d states %d steps %d merges %d paths %d feas %d wit %s %s %s\n", r.job, r.dur.Seconds(), r.symDur.Seconds(), r.obligs, r.byUF, r.byFP, r.byReal, len(r.open), r.states, r.steps, r.merges, r.paths, r.feasQ, r.wit, r.err, r.note)
					for k, o := range r.open {
						if k > 3 {
							break
						}
						fmt.Fprintf(os.Stderr, "    open: %s: %s\n", o.kind, o.msg)
					}
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	why := ""
	tick := time.NewTicker(500 * time.Millisecond)
wait:
	for {
		select {
		case <-done:
			break wait
		case <-tick.C:
			mu.Lock()
			g := grace
			mu.Unlock()
			switch {
			case !g.IsZero() && time.Now().After(g.Add(10*time.Second)):
				why = "stopped: violations already found"
			case time.Now().After(end.Add(60 * time.Second)):
				why = "stopped: time budget used"
			case residentGB() > 20:
				why = "stopped: memory budget used"
			default:
				continue
			}
			break wait
		}
	}
	mu.Lock()
	if why != "" {
		for i := range results {
			if results[i] == nil {
				results[i] = &JobResult{job: s.jobs[i], err: why}
			}
		}
	}
	code := report(s, results, time.Since(t0))
	cleanup()
	pprof.StopCPUProfile()
	os.Exit(code)
}

// jobOrder takes the jobs of the harness functions in turn, so that every
// kind of check gets to run early.
func jobOrder(jobs []*Job) []int {
	seen := map[string]int{}
	rank := make([]int, len(jobs))
	order := make([]int, len(jobs))
	for i, j := range jobs {
		order[i] = i
		k := strings.SplitN(j.String(), "[", 2)[0]
		rank[i] = seen[k]
		seen[k]++
	}
	sort.SliceStable(order, func(a, b int) bool { return rank[order[a]] < rank[order[b]] })
	return order
}

// residentGB is the memory this process holds.
func residentGB() float64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseFloat(f[1], 64)
	return n * 4096 / (1 << 30)
}

// ---- reporting ----

func loadKnown() []map[string]string {
	var r []map[string]string
	b, err := os.ReadFile(filepath.Join(*fVerif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []map[string]string `json:"findings"`
	}
	json.Unmarshal(b, &f)
	r = f.Findings
	return r
}

func report(s *Session, rs []*JobResult, wall time.Duration) int {
	prop := *fProp
	code := 0
	known := loadKnown()
	viol := 0
	fns, asm := map[string]bool{}, map[string]bool{}
	insns := map[string]int{}
	var obl, uf, fp, real, open, wits, paths, inputs, folded int
	var states, steps, merges int64
	var samples []interface{}
	var undecided, mismatches, notes []string
	seenViol := map[string]bool{}
	for _, r := range rs {
		if r == nil {
			continue
		}
		obl += r.obligs
		uf += r.byUF
		folded += r.folded
		fp += r.byFP
		real += r.byReal
		open += len(r.open)
		states += r.states
		steps += r.steps
		merges += r.merges
		paths += r.paths
		inputs += r.inputs
		for f := range r.fns {
			if !strings.Contains(f, "verifnd") {
				fns[f] = true
			}
		}
		for f := range r.asm {
			asm[f] = true
		}
		for k, v := range r.insns {
			insns[k] += v
		}
		if r.wit == "ok" {
			wits++
			if len(samples) < 3 {
				m := map[string]string{}
				for k, v := range r.witModel {
					if len(m) < 12 {
						m[k] = fmt.Sprintf("%#x", v)
					}
				}
				samples = append(samples, map[string]interface{}{"job": r.job.String(), "inputs": m, "obligations": r.obligs})
			}
		} else if strings.HasPrefix(r.wit, "mismatch") {
			mismatches = append(mismatches, r.job.String()+": "+r.wit)
		}
		if r.err != "" {
			undecided = append(undecided, r.job.String()+": "+r.err)
		}
		for _, o := range r.open {
			undecided = append(undecided, r.job.String()+": "+o.kind+": "+o.msg)
		}
		if r.note != "" {
			notes = append(notes, r.job.String()+": "+r.note)
		}
		if r.violation != nil {
			v := r.violation
			isKnown := false
			for _, k := range known {
				if k["status"] == "known" && k["property"] == prop && k["job"] == v.Name && k["match"] != "" {
					all := len(v.Failures) > 0
					for _, f := range v.Failures {
						if !strings.Contains(f, k["match"]) {
							all = false
						}
					}
					if all {
						isKnown = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k["what"])
						break
					}
				}
			}
			if isKnown {
				continue
			}
			viol++
			if seenViol[v.Name] && viol > 3 {
				continue
			}
			seenViol[v.Name] = true
			b, _ := json.MarshalIndent(v, "", " ")
			dir := filepath.Join(*fVerif, "evidence", "replay")
			os.MkdirAll(dir, 0755)
			h := sha1.Sum(b)
			f := filepath.Join(dir, fmt.Sprintf("%s-%x.json", prop, h[:5]))
			os.WriteFile(f, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
			fmt.Printf("  job %s, obligation %q\n", r.job, v.Obligation)
			for _, x := range first(v.Failures, 4) {
				fmt.Printf("  native: %s\n", x)
			}
			if v.Crash != "" {
				fmt.Printf("  native crash: %s\n", strings.SplitN(v.Crash, "\n", 2)[0])
			}
			code = 1
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no witness run in this invocation")
	}
	ins := make([]string, 0, len(insns))
	for k := range insns {
		ins = append(ins, k)
	}
	sort.Strings(ins)
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   steps,
		"traces_validated_against_impl": wits,
		"samples":                       samples,
		"jobs":                          len(rs),
		"symbolic_inputs":               inputs,
		"completed_paths":               paths,
		"state_merges":                  merges,
		"obligations":                   obl,
		"discharged_bit_exact":          uf,
		"of_those_folded_by_rewriting":  folded,
		"distinct_goals_sent_to_solver": len(proofs),
		"discharged_ieee_theory":        fp,
		"discharged_real_arithmetic":    real,
		"undecided":                     first(undecided, 40),
		"undecided_count":               len(undecided),
		"encoding_mismatches":           first(mismatches, 20),
		"notes":                         first(notes, 20),
		"functions_encoded":             keys(fns),
		"assembly_functions_encoded":    keys(asm),
		"x86_instructions_encoded":      ins,
		"solver_queries":                stats.Queries,
		"solver_unsat":                  stats.Unsat,
		"solver_sat":                    stats.Sat,
		"solver_unknown":                stats.Unknown,
		"solver_seconds":                math.Round(float64(stats.Nanos)/1e7) / 100,
		"bounds":                        bounds(prop),
		"harness_files_set_aside":       s.dropped,
	}
	for k, v := range cov {
		if l, ok := v.([]string); ok && l == nil {
			cov[k] = []string{}
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": math.Round(wall.Seconds()*100) / 100, "violations": viol,
		"assumptions": assumptions(prop),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", prop+".json"), append(b, '\n'), 0644)
	for _, m := range first(mismatches, 5) {
		fmt.Println("note: " + m)
	}
	for _, u := range first(undecided, 5) {
		fmt.Println("undecided: " + u)
	}
	fmt.Printf("%s: %d jobs, %d obligations: %d bit-exact, %d IEEE, %d real; %d undecided; %d queries %.1fs solver; %d witness runs; %.1fs\n",
		prop, len(rs), obl, uf, fp, real, len(undecided), stats.Queries, float64(stats.Nanos)/1e9, wits, wall.Seconds())
	return code
}

func bounds(prop string) interface{} {
	b, err := os.ReadFile(filepath.Join(*fVerif, "bounds.json"))
	if err != nil {
		return "see DESIGN.md"
	}
	var m map[string]map[string]string
	json.Unmarshal(b, &m)
	if v, ok := m[prop]; ok {
		return v[tier]
	}
	return "see DESIGN.md"
}

func assumptions(prop string) []string {
	a := []string{
		"the SSA form built by golang.org/x/tools/go/ssa and the instruction semantics of this engine represent what the Go 1.27 amd64 compiler and the CPU do (checked by the concordance runs counted under traces_validated_against_impl)",
		"NaN payload and sign are not distinguished where arithmetic produced them",
		"the SMT solvers' unsat answers are trusted; sat answers are only candidates and are replayed natively",
	}
	return a
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	if v.Tier != "" {
		tier = v.Tier
	}
	*fProp = v.Prop
	s := setup(v.Prop)
	r := s.nativeReq(nativeReq{Prop: v.Prop, Name: v.Name, Params: v.Params, Model: v.Model})
	for _, f := range r.Failures {
		fmt.Println("native:", f)
	}
	if r.Crash != "" {
		fmt.Println("crash:", r.Crash)
	}
	cleanup()
	if len(r.Failures) > 0 || r.Crash != "" {
		os.Exit(1)
	}
	os.Exit(0)
}

var _ = runtime.NumCPU
