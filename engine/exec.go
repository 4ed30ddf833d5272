package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one proof obligation: under pc, cond must hold.
type Oblig struct {
	pc   []*Term
	cond *Term
	msg  string
	kind string // "assert", "panic", "memory", ...
	real *RealOb
	got  *Term
	want *Term
	flt  bool
}

type Outcome struct {
	st    *State
	ret   Value
	pan   string // non-empty: panicked (or faulted) with this message
	fault bool   // a memory fault or broken machine state, not recoverable
}

type Exec struct {
	c          *Ctx
	prog       *Program
	objCtr     int
	genCtr     int
	base       *State
	tables     map[string]*Table
	tabByName  map[string]*Table
	forkInts   bool
	noMergeLen bool
	obligs     []*Oblig
	inc        *Inc
	globals    map[*ssa.Global]int
	initDone   map[*ssa.Package]bool
	lazy       map[*ssa.Global][]*ssa.Function // init functions put off
	strs       map[string]int
	fns        map[*ssa.Function]bool
	asmFns     map[string]bool
	steps      int64
	states     int64
	merges     int64
	pool       []*Evaluator
	maxSteps   int64
	deadline   time.Time
	job        *Job
	depth      int
	inputs     []Input
	reached    []*Term // path conditions of completed runs
	mach       *Machine
	realMode   bool
	assumes    []string
	tryDepth   int
	inits      int
	obs        []Obs
	featObj    map[string]*Term
	flagGlob   map[string]bool
	insns      map[string]int
	incMode    FMode
	lin        *linCtx
	linQ       int
	xorMemo    map[int32]bool
	unwound    bool
	uid        map[string]int
	assumeReal []*RealAtom
	noFeas     bool
	feasQ      int
	wit        []*witness
}

type Obs struct {
	name string
	t    *Term
}

type Input struct {
	Name string
	T    *Term
}

func NewExec(p *Program) *Exec {
	ex := &Exec{c: NewCtx(), prog: p, tables: map[string]*Table{}, tabByName: map[string]*Table{},
		globals: map[*ssa.Global]int{}, initDone: map[*ssa.Package]bool{}, lazy: map[*ssa.Global][]*ssa.Function{}, strs: map[string]int{},
		fns: map[*ssa.Function]bool{}, asmFns: map[string]bool{}, maxSteps: 60_000_000, insns: map[string]int{}, uid: map[string]int{}}
	ex.base = &State{gen: -1, objs: map[int]*Object{}}
	return ex
}

// ---- per function information ----

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	rpo   []int   // by block index
	loops [][]int // by block index: headers of enclosing loops, outermost first
	live  []map[int]bool
	isHdr []bool
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	nb := len(fn.Blocks)
	fi.rpo = make([]int, nb)
	// reverse post-order
	seen := make([]bool, nb)
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i].Index] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := range fi.rpo {
		fi.rpo[i] = 1 << 20
	}
	for i, b := range post {
		fi.rpo[b.Index] = len(post) - 1 - i
	}
	// natural loops by back edges (target dominates source)
	inLoop := make([]map[int]bool, nb)
	fi.isHdr = make([]bool, nb)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.isHdr[s.Index] = true
				if inLoop[s.Index] == nil {
					inLoop[s.Index] = map[int]bool{s.Index: true}
				}
				m := inLoop[s.Index]
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if m[x.Index] {
						continue
					}
					m[x.Index] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	fi.loops = make([][]int, nb)
	for i := 0; i < nb; i++ {
		var hs []int
		for h := 0; h < nb; h++ {
			if inLoop[h] != nil && inLoop[h][i] {
				hs = append(hs, h)
			}
		}
		sort.Slice(hs, func(a, b int) bool {
			if len(inLoop[hs[a]]) != len(inLoop[hs[b]]) {
				return len(inLoop[hs[a]]) > len(inLoop[hs[b]])
			}
			return fi.rpo[hs[a]] < fi.rpo[hs[b]]
		})
		fi.loops[i] = hs
	}
	// liveness at block entry (after phis)
	fi.live = make([]map[int]bool, nb)
	use := make([]map[int]bool, nb)
	def := make([]map[int]bool, nb)
	phiUse := make([]map[int]bool, nb) // uses by phis of successors
	for i := range use {
		use[i], def[i], fi.live[i], phiUse[i] = map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
	}
	var rands [10]*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for k, e := range ph.Edges {
					if i, ok := fi.idx[e]; ok {
						phiUse[b.Preds[k].Index][i] = true
					}
				}
				continue
			}
			for _, r := range in.Operands(rands[:0]) {
				if *r == nil {
					continue
				}
				if i, ok := fi.idx[*r]; ok && !def[b.Index][i] {
					use[b.Index][i] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[b.Index][fi.idx[v]] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			l := fi.live[b.Index]
			addl := func(i int) {
				if !l[i] {
					l[i] = true
					changed = true
				}
			}
			for i := range use[b.Index] {
				addl(i)
			}
			for i := range phiUse[b.Index] {
				if !def[b.Index][i] {
					addl(i)
				}
			}
			for _, s := range b.Succs {
				for i := range fi.live[s.Index] {
					if def[b.Index][i] {
						continue
					}
					// phis of s are defined on the edge
					isPhi := false
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if fi.idx[ph] == i {
							isPhi = true
						}
					}
					if !isPhi {
						addl(i)
					}
				}
			}
		}
	}
	// a phi value of b itself that is live-in must be kept
	p.infos[fn] = fi
	return fi
}

type deferred struct {
	fn   Fn
	args []Value
	inv  *ssa.CallCommon
}

type item struct {
	st    *State
	regs  []Value
	blk   *ssa.BasicBlock
	pc    int // instruction index
	iters []int
	key   []int
	defs  []deferred
}

func (fi *fnInfo) mkKey(it *item) {
	k := it.key[:0:0]
	hs := fi.loops[it.blk.Index]
	for j, h := range hs {
		k = append(k, fi.rpo[h], it.iters[j])
	}
	k = append(k, fi.rpo[it.blk.Index], it.pc)
	it.key = k
}

func cmpKey(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

type needConcrete struct{ t *Term }

// concrete returns the value of an integer term, forking the current item
// when it is symbolic.
func (ex *Exec) concrete(st *State, t *Term) int64 {
	if t.op == OpConst {
		return sx(t.v, t.w)
	}
	if v, ok := st.conc[t.id]; ok {
		return sx(v, t.w)
	}
	panic(needConcrete{t})
}

// candidates enumerates values a term can take under the path condition.
func (ex *Exec) candidates(st *State, t *Term) []uint64 {
	set := map[uint64]bool{}
	if ex.leafSet(t, set, 0) {
		var r []uint64
		for v := range set {
			if ex.feasible(st, ex.c.Eq(t, ex.c.Const(t.w, v))) {
				r = append(r, v)
			}
		}
		sort.Slice(r, func(i, j int) bool { return sx(r[i], t.w) < sx(r[j], t.w) })
		return r
	}
	lo, hi := ex.c.urange(t)
	if hi-lo < 600 {
		var r []uint64
		for v := lo; v <= hi; v++ {
			if ex.feasible(st, ex.c.Eq(t, ex.c.Const(t.w, v))) {
				r = append(r, v)
			}
		}
		return r
	}
	// solver enumeration
	var r []uint64
	conj := st.pc.list()
	for len(r) < 300 {
		res := Solve(ex.incMode, append(append([]*Term{}, conj...), ex.c.True), 20*time.Second)
		if res.Res == "unsat" {
			return r
		}
		if res.Res != "sat" {
			unsup("cannot enumerate values of a symbolic size")
		}
		ev := ex.evaluator(res.Model)
		v := ev.Eval(t)
		// the model is for uninterpreted floats; the value may be stale, so
		// exclude it and keep going
		r = append(r, v)
		conj = append(conj, ex.c.Not(ex.c.Eq(t, ex.c.Const(t.w, v))))
	}
	unsup("too many values for a symbolic size")
	return nil
}

func (ex *Exec) tblDef() func(t *Term) uint64 { return nil }

// evaluator returns an evaluator that knows the recorded tables.
func (ex *Exec) evaluator(m Model) *Evaluator {
	ev := NewEval(ex.c, m)
	ev.Tab = ex.tabByName
	return ev
}

func (ex *Exec) leafSet(t *Term, set map[uint64]bool, depth int) bool {
	if len(set) > 600 || depth > 400 {
		return false
	}
	switch t.op {
	case OpConst:
		set[t.v] = true
		return true
	case OpIte:
		return ex.leafSet(t.args[1], set, depth+1) && ex.leafSet(t.args[2], set, depth+1)
	case OpAdd, OpMul, OpSDiv, OpUDiv, OpSub:
		a, b := map[uint64]bool{}, map[uint64]bool{}
		if !ex.leafSet(t.args[0], a, depth+1) || !ex.leafSet(t.args[1], b, depth+1) || len(a)*len(b) > 600 {
			return false
		}
		for x := range a {
			for y := range b {
				m := Model{}
				_ = m
				tt := &Term{op: t.op, w: t.w, args: []*Term{{op: OpConst, w: t.args[0].w, v: x}, {op: OpConst, w: t.args[1].w, v: y}}}
				set[NewEval(ex.c, nil).eval(tt)&mask(t.w)] = true
			}
		}
		return true
	case OpZExt, OpSExt, OpExtract, OpNeg, OpBNot:
		a := map[uint64]bool{}
		if !ex.leafSet(t.args[0], a, depth+1) {
			return false
		}
		for x := range a {
			tt := &Term{op: t.op, w: t.w, v: t.v, args: []*Term{{op: OpConst, w: t.args[0].w, v: x}}}
			set[NewEval(ex.c, nil).eval(tt)&mask(t.w)] = true
		}
		return true
	}
	return false
}

type witness struct {
	m  Model
	ev *Evaluator
}

// feasible reports whether cond can hold on the path (unknown counts as yes).
func (ex *Exec) feasible(st *State, cond *Term) bool {
	if cond.op == OpConst {
		return cond.v == 1
	}
	nc := ex.c.Not(cond)
	for p := st.pc; p != nil && p.t != nil; p = p.up {
		if p.t == cond {
			return true
		}
		if p.t == nc {
			return false
		}
	}
	if ex.noFeas {
		return true
	}
	m := ex.pcMask(st.pc)
	for i := 0; m != 0 && i < len(ex.pool); i++ {
		if m>>uint(i)&1 == 1 && ex.pool[i].Eval(cond) == 1 {
			return true
		}
	}
	conj := append([]*Term{cond}, st.pc.list()...)
	if xorHeavy(conj, 12) {
		ex.linQ++
		if ex.linear().unsat(conj, 2) {
			return false
		}
		if ex.xorChain(cond) {
			// nothing the solver could do about it; assume it can happen
			return true
		}
		k := 0
		for _, t := range conj {
			if !ex.xorChain(t) {
				conj[k] = t
				k++
			}
		}
		conj = conj[:k]
	}
	if ex.inc == nil || ex.inc.dead {
		ex.inc = NewInc(ex.incMode, 3000)
	}
	ex.feasQ++
	if os.Getenv("VFEAS") != "" {
		fmt.Fprintf(os.Stderr, "feas pcdepth %d mask %x cond %s\n", len(st.pc.list()), m, cond.str(4))
	}
	return ex.inc.Check(conj...) != "unsat"
}

// pcMask tells which models of the pool satisfy a path condition.
func (ex *Exec) pcMask(p *PC) uint64 {
	if ex.pool == nil {
		for k := 0; k < 48; k++ {
			k := k
			ev := ex.evaluator(Model{})
			ev.Def = func(t *Term) uint64 { return poolValue(t, k) }
			ex.pool = append(ex.pool, ev)
		}
	}
	var chain []*PC
	q := p
	for ; q != nil && q.t != nil && !q.masked; q = q.up {
		chain = append(chain, q)
	}
	m := uint64(1)<<uint(len(ex.pool)) - 1
	if q != nil && q.t != nil {
		m = q.mask
	}
	for i := len(chain) - 1; i >= 0; i-- {
		for k := 0; k < len(ex.pool); k++ {
			if m>>uint(k)&1 == 1 && ex.pool[k].Eval(chain[i].t) != 1 {
				m &^= 1 << uint(k)
			}
		}
		chain[i].mask, chain[i].masked = m, true
	}
	return m
}

// poolValue is the value of an input in the k-th model of the pool.
func poolValue(t *Term, k int) uint64 {
	h := uint64(k+1) * 0x9e3779b97f4a7c15
	for i := 0; i < len(t.name); i++ {
		h = (h ^ uint64(t.name[i])) * 0x100000001b3
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	if t.flt {
		f := float64(int64(h%200001)-100000) / 1000
		idx := 0.0
		if i := strings.LastIndexByte(t.name, '['); i >= 0 {
			n, _ := strconv.Atoi(strings.TrimSuffix(t.name[i+1:], "]"))
			idx = float64(n)
		}
		switch {
		case k == 0:
			f = 0
		case k == 1:
			f = 1
		case k == 2:
			f = idx
		case k == 3:
			f = -idx
		case k%8 == 7:
			return h & mask(t.w)
		case k%8 == 6:
			f *= math.Exp2(float64(int(h>>40%41) - 20))
		case k%8 == 5:
			f *= math.Exp2(float64(int(h>>40%21) - 2))
		case k%3 == 1:
			f = float64(int64(h%7) - 3)
		}
		if t.w == 32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	switch {
	case k == 0:
		return 0
	case k == 1:
		return 1
	case k == 2:
		return mask(t.w)
	case k%4 == 3:
		return (h % 129) & mask(t.w)
	case k%4 == 2 && t.w == 8:
		return uint64("0123456789 -.ABCDEFGOKS"[h%23])
	}
	return h & mask(t.w)
}

func (ex *Exec) oblige(st *State, cond *Term, kind, msg string) {
	if cond.IsTrue() {
		// keep trivially true obligations in the count
		ex.obligs = append(ex.obligs, &Oblig{cond: cond, msg: msg, kind: kind})
		return
	}
	ex.obligs = append(ex.obligs, &Oblig{pc: st.pc.list(), cond: cond, msg: msg, kind: kind})
}

func (ex *Exec) tick(n int64) {
	ex.steps += n
	if ex.steps > ex.maxSteps {
		unsup("step budget exhausted")
	}
	if ex.steps&0xfff == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		unsup("time budget exhausted")
	}
}

// call runs fn on args and returns all outcomes.
func (ex *Exec) call(st *State, f Fn, args []Value) []Outcome {
	if f.B != nil {
		unsup("builtin value call")
	}
	fn := f.F
	if fn == nil {
		if f.Name != "" {
			return ex.modelCall(st, f.Name, args)
		}
		return []Outcome{{st: st, pan: "call of nil function"}}
	}
	if o, ok := ex.intrinsic(st, fn, args); ok {
		return o
	}
	if len(fn.Blocks) == 0 {
		if ex.prog.isModulePkg(fn.Pkg) {
			return ex.callAsm(st, fn, args)
		}
		unsup("external function %s", fn.String())
	}
	ex.depth++
	if ex.depth > 200 {
		ex.depth--
		unsup("call depth")
	}
	defer func() { ex.depth-- }()
	ex.fns[fn] = true
	fi := ex.prog.info(fn)
	regs := make([]Value, fi.n)
	if len(args) != len(fn.Params) {
		unsup("arity of %s", fn)
	}
	for i, p := range fn.Params {
		regs[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		regs[fi.idx[p]] = f.Bind[i]
	}
	first := &item{st: st, regs: regs, blk: fn.Blocks[0]}
	first.iters = make([]int, len(fi.loops[0]))
	fi.mkKey(first)
	fr := &frame{ex: ex, fn: fn, fi: fi, work: []*item{first}}
	for len(fr.work) > 0 {
		// lowest position first
		best := 0
		for i := 1; i < len(fr.work); i++ {
			if cmpKey(fr.work[i].key, fr.work[best].key) < 0 {
				best = i
			}
		}
		it := fr.work[best]
		fr.work[best] = fr.work[len(fr.work)-1]
		fr.work = fr.work[:len(fr.work)-1]
		fr.run(it)
		if len(fr.work) > 4000 || len(fr.outs) > 4000 {
			unsup("too many paths in %s", fn)
		}
	}
	return fr.outs
}

type frame struct {
	ex   *Exec
	fn   *ssa.Function
	fi   *fnInfo
	work []*item
	outs []Outcome
}

func (fr *frame) run(it *item) {
	defer func() {
		if r := recover(); r != nil {
			nc, ok := r.(needConcrete)
			if !ok {
				if e, isErr := r.(error); isErr {
					if _, isU := r.(unsupported); !isU {
						panic(fmt.Sprintf("%v (in %s)", e, fr.fn))
					}
				}
				panic(r)
			}
			vals := fr.ex.candidates(it.st, nc.t)
			for i, v := range vals {
				s := it.st
				if i < len(vals)-1 {
					s = fr.ex.clone(it.st)
				}
				if len(vals) > 1 {
					fr.ex.addPC(s, fr.ex.c.Eq(nc.t, fr.ex.c.Const(nc.t.w, v)))
				}
				if s.conc == nil {
					s.conc = map[int32]uint64{}
				} else if i == len(vals)-1 {
					m := map[int32]uint64{}
					for k, x := range s.conc {
						m[k] = x
					}
					s.conc = m
				}
				s.conc[nc.t.id] = v
				n := *it
				n.st = s
				if i < len(vals)-1 {
					n.regs = append([]Value(nil), it.regs...)
				}
				fr.fi.mkKey(&n)
				fr.work = append(fr.work, &n)
			}
		}
	}()
	fr.ex.states++
	for {
		in := it.blk.Instrs[it.pc]
		fr.ex.tick(1)
		if !fr.step(it, in) {
			return
		}
		it.pc++
	}
}

// push schedules an item at a position, merging with one already there.
func (fr *frame) push(it *item) {
	fr.fi.mkKey(it)
	for i, o := range fr.work {
		if cmpKey(o.key, it.key) != 0 || len(o.defs) != len(it.defs) {
			continue
		}
		if m := fr.merge(o, it); m != nil {
			fr.work[i] = m
			fr.ex.merges++
			return
		}
	}
	fr.work = append(fr.work, it)
}

func (fr *frame) merge(a, b *item) *item {
	ex := fr.ex
	if len(a.defs) > 0 {
		for i := range a.defs {
			if len(a.defs[i].args) > 0 || a.defs[i].fn.F != b.defs[i].fn.F {
				return nil
			}
		}
	}
	// cheap structural screening before the expensive state merge
	regs := make([]Value, len(a.regs))
	live := fr.fi.live[a.blk.Index]
	st, cond := ex.mergeStates(a.st, b.st)
	if st == nil {
		return nil
	}
	for i := range regs {
		if a.pc == 0 || true {
			if !live[i] && !fr.definedHere(a.blk, a.pc, i) {
				continue
			}
		}
		x, y := a.regs[i], b.regs[i]
		if x == nil || y == nil {
			continue
		}
		v, ok := ex.iteV(cond, x, y)
		if !ok {
			return nil
		}
		regs[i] = v
	}
	n := *a
	n.st = st
	n.regs = regs
	return &n
}

// definedHere: is register i defined in this block before instruction pc?
func (fr *frame) definedHere(b *ssa.BasicBlock, pc int, i int) bool {
	for k := 0; k < pc && k < len(b.Instrs); k++ {
		if v, ok := b.Instrs[k].(ssa.Value); ok && fr.fi.idx[v] == i {
			return true
		}
	}
	return false
}

func (fr *frame) goBlock(it *item, to *ssa.BasicBlock) {
	from := it.blk
	fi := fr.fi
	// loop counters
	oldH := fi.loops[from.Index]
	newH := fi.loops[to.Index]
	iters := make([]int, len(newH))
	for j, h := range newH {
		for k, g := range oldH {
			if g == h {
				iters[j] = it.iters[k]
			}
		}
		if h == to.Index {
			back := to.Dominates(from)
			if back {
				for k, g := range oldH {
					if g == h {
						iters[j] = it.iters[k] + 1
					}
				}
			} else {
				iters[j] = 0
			}
		}
	}
	// phis
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	var vals []Value
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, fr.val(it, ph.Edges[pi]))
		n++
	}
	for k := 0; k < n; k++ {
		it.regs[fi.idx[to.Instrs[k].(*ssa.Phi)]] = vals[k]
	}
	it.iters = iters
	it.blk = to
	it.pc = n
	fr.push(it)
}

func (fr *frame) val(it *item, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.ex.constVal(x)
	case *ssa.Global:
		return Ptr{Obj: fr.ex.global(x)}
	case *ssa.Function:
		return Fn{F: x}
	case *ssa.Builtin:
		return Fn{B: x}
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		unsup("value %v", v)
	}
	r := it.regs[i]
	if r == nil {
		unsup("undefined register %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (ex *Exec) strConst(s string) Str {
	if len(s) == 0 {
		return Str{Len: ex.c.Int(0)}
	}
	id, ok := ex.strs[s]
	if !ok {
		o := ex.alloc(ex.base, int64(len(s)), "string constant")
		for i := 0; i < len(s); i++ {
			ex.storeRaw(ex.base, o, int64(i), 1, ex.c.Const(8, uint64(s[i])))
		}
		o.ro = true
		id = o.id
		ex.strs[s] = id
	}
	return Str{P: Ptr{Obj: id}, Len: ex.c.Int(int64(len(s)))}
}

func (ex *Exec) constVal(x *ssa.Const) Value {
	if x.Value == nil {
		return ex.zero(x.Type())
	}
	return ex.constOf(x.Value, x.Type())
}

func (ex *Exec) constOf(v constant.Value, t types.Type) Value {
	b, ok := under(t).(*types.Basic)
	if !ok {
		if tp, isTP := t.(*types.TypeParam); isTP {
			unsup("type parameter constant %v", tp)
		}
		unsup("constant of type %v", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return ex.c.Bool(constant.BoolVal(v))
	case b.Info()&types.IsString != 0:
		return ex.strConst(constant.StringVal(v))
	case b.Info()&types.IsInteger != 0:
		w, _ := basicWidth(b)
		i := constant.ToInt(v)
		if n, ok := constant.Int64Val(i); ok {
			return ex.c.Const(w, uint64(n))
		}
		n, _ := constant.Uint64Val(i)
		return ex.c.Const(w, n)
	case b.Info()&types.IsFloat != 0:
		if b.Kind() == types.Float32 {
			f, _ := constant.Float32Val(v)
			return ex.c.F32(f)
		}
		f, _ := constant.Float64Val(v)
		return ex.c.F64(f)
	case b.Info()&types.IsComplex != 0:
		re, im := constant.Real(v), constant.Imag(v)
		if b.Kind() == types.Complex64 {
			f, _ := constant.Float32Val(re)
			g, _ := constant.Float32Val(im)
			return Complex{ex.c.F32(f), ex.c.F32(g)}
		}
		f, _ := constant.Float64Val(re)
		g, _ := constant.Float64Val(im)
		return Complex{ex.c.F64(f), ex.c.F64(g)}
	}
	unsup("constant %v", v)
	return nil
}

// global returns the object of a package-level variable, running the
// package's initialisers first.
func (ex *Exec) global(g *ssa.Global) int {
	id, ok := ex.globals[g]
	if !ok {
		id = ex.newGlobal(g)
	}
	if g.Pkg != nil && !ex.initDone[g.Pkg] {
		ex.initPkg(g.Pkg)
	}
	for len(ex.lazy[g]) > 0 {
		f := ex.lazy[g][0]
		for k, l := range ex.lazy {
			for i, x := range l {
				if x == f {
					ex.lazy[k] = append(append([]*ssa.Function(nil), l[:i]...), l[i+1:]...)
					break
				}
			}
		}
		ex.runInit(f)
	}
	return id
}

// deferrable reports the package variables an init function deals with, when
// it can be put off until one of them is used.
func deferrable(f *ssa.Function) []*ssa.Global {
	if f.Pkg == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	gs := map[*ssa.Global]bool{}
	ok := true
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || !ok {
			return
		}
		seen[g] = true
		if len(seen) > 60 {
			ok = false
			return
		}
		path := ""
		if g.Pkg != nil {
			path = g.Pkg.Pkg.Path()
		}
		if path == "math" {
			return
		}
		if g.Pkg != f.Pkg || len(g.Blocks) == 0 {
			ok = false
			return
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Call:
					if _, b := c.Call.Value.(*ssa.Builtin); !b && c.Call.StaticCallee() == nil {
						ok = false
					}
				case *ssa.Defer, *ssa.Go, *ssa.MakeClosure, *ssa.Send, *ssa.Select:
					ok = false
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Global:
						gs[v] = true
						if v.Pkg != f.Pkg {
							ok = false
						}
					case *ssa.Function:
						visit(v)
					}
				}
			}
		}
	}
	visit(f)
	if !ok || len(gs) == 0 {
		return nil
	}
	var r []*ssa.Global
	for g := range gs {
		r = append(r, g)
	}
	return r
}

func (ex *Exec) newGlobal(g *ssa.Global) int {
	if id, ok := ex.globals[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	o := ex.alloc(ex.base, sizeof(t), g.String())
	ex.globals[g] = o.id
	return o.id
}

var skipInit = map[string]bool{"os": true, "syscall": true, "runtime": true, "net": true, "time": true, "log": true,
	"internal/poll": true, "reflect": true, "sync": true, "internal/cpu": true, "internal/godebug": true, "internal/bisect": true}

func (ex *Exec) initPkg(p *ssa.Package) {
	if ex.initDone[p] {
		return
	}
	ex.initDone[p] = true
	if skipInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	ex.runInit(f)
}

// runInit runs an initialiser on the base layer directly.
func (ex *Exec) runInit(f *ssa.Function) {
	p := f.Pkg
	st := &State{gen: ex.base.gen, objs: ex.base.objs, maps: ex.base.maps}
	if st.maps == nil {
		st.maps = map[int]*MapObj{}
		ex.base.maps = st.maps
	}
	saved, savedD, sd := ex.inits, ex.deadline, ex.depth
	ex.inits++
	fi, nm := ex.forkInts, ex.noFeas
	outs := ex.call(st, Fn{F: f}, nil)
	ex.forkInts, ex.noFeas = fi, nm
	ex.inits, ex.deadline, ex.depth = saved, savedD, sd
	if len(outs) != 1 || outs[0].pan != "" {
		msg := ""
		if len(outs) > 0 {
			msg = outs[0].pan
		}
		unsup("initialiser of %s: %d outcomes %s", p.Pkg.Path(), len(outs), msg)
	}
	o := outs[0].st
	ex.base.objs = o.objs
	ex.base.maps = o.maps
	ex.base.gen = o.gen
}

func (fr *frame) panicOut(it *item, msg string) {
	fr.outs = append(fr.outs, Outcome{st: it.st, pan: msg})
}

// guard splits off a panicking outcome when cond can be false; returns
// false when the good side is infeasible.
func (fr *frame) guard(it *item, cond *Term, msg string) bool {
	ex := fr.ex
	if cond.IsTrue() {
		return true
	}
	pos := ""
	if it.pc < len(it.blk.Instrs) {
		pos = ex.prog.pos(it.blk.Instrs[it.pc].Pos(), fr.fn)
	}
	if cond.IsFalse() {
		fr.outs = append(fr.outs, Outcome{st: it.st, pan: msg + pos})
		return false
	}
	nc := ex.c.Not(cond)
	if ex.feasible(it.st, nc) {
		s := ex.clone(it.st)
		ex.addPC(s, nc)
		fr.outs = append(fr.outs, Outcome{st: s, pan: msg + pos})
		if !ex.feasible(it.st, cond) {
			return false
		}
		ex.addPC(it.st, cond)
	}
	return true
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isComplex(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}

func (fr *frame) set(it *item, v ssa.Value, x Value) { it.regs[fr.fi.idx[v]] = x }

func (ex *Exec) toInt64(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(typ) {
		return ex.c.SExt(t, 64)
	}
	return ex.c.ZExt(t, 64)
}

// elemPtr computes p + idx*stride (idx already checked against n).
func (ex *Exec) elemPtr(st *State, p Ptr, idx *Term, stride, n int64) Ptr {
	if idx.op == OpConst {
		p.Base += sx(idx.v, 64) * stride
		return p
	}
	if v, ok := st.conc[idx.id]; ok {
		p.Base += sx(v, 64) * stride
		return p
	}
	if p.Idx != nil {
		// second symbolic index: concretise this one
		v := ex.concrete(st, idx)
		p.Base += v * stride
		return p
	}
	// idx = c + rest : fold the constant
	if idx.op == OpAdd && idx.args[0].op == OpConst {
		cst := sx(idx.args[0].v, 64)
		rest := idx.args[1]
		if lo, hi := ex.c.srange(rest); cst >= 0 && lo >= 0 && hi < 1<<40 {
			return Ptr{Obj: p.Obj, Base: p.Base + cst*stride, Idx: rest, Stride: stride, Cnt: n - cst}
		}
	}
	return Ptr{Obj: p.Obj, Base: p.Base, Idx: idx, Stride: stride, Cnt: n}
}

// step executes one instruction; it returns false when the item is done
// (branch, return, or split).
func (fr *frame) step(it *item, in ssa.Instruction) bool {
	ex := fr.ex
	c := ex.c
	st := it.st
	switch x := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := ex.alloc(st, sizeof(t), "variable "+x.Comment)
		fr.set(it, x, Ptr{Obj: o.id})
		return true
	case *ssa.BinOp:
		v, ok := fr.binop(it, x)
		if !ok {
			return false
		}
		fr.set(it, x, v)
		return true
	case *ssa.UnOp:
		return fr.unop(it, x)
	case *ssa.Store:
		p, ok := fr.val(it, x.Addr).(Ptr)
		if !ok {
			unsup("store through %T", fr.val(it, x.Addr))
		}
		if msg := ex.store(st, p, x.Val.Type(), fr.val(it, x.Val)); msg != "" {
			fr.panicOut(it, msg+ex.prog.pos(in.Pos(), fr.fn))
			return false
		}
		return true
	case *ssa.FieldAddr:
		p := fr.val(it, x.X).(Ptr)
		if p.IsNil() {
			fr.panicOut(it, "nil pointer dereference"+ex.prog.pos(in.Pos(), fr.fn))
			return false
		}
		s := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
		p.Base += structOffsets(s)[x.Field]
		fr.set(it, x, p)
		return true
	case *ssa.Field:
		fr.set(it, x, fr.val(it, x.X).(StructV).F[x.Field])
		return true
	case *ssa.IndexAddr:
		idx := ex.toInt64(fr.val(it, x.Index).(*Term), x.Index.Type())
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := fr.val(it, x.X).(Slice)
			if !fr.guard(it, c.Ult(idx, s.Len), "index out of range") {
				return false
			}
			n := int64(1) << 40
			if s.Len.op == OpConst {
				n = int64(s.Len.v)
			} else if _, h := c.urange(s.Len); h < uint64(n) {
				n = int64(h)
			}
			fr.set(it, x, ex.elemPtr(it.st, s.P, idx, sizeof(u.Elem()), n))
		case *types.Pointer:
			a := under(u.Elem()).(*types.Array)
			p := fr.val(it, x.X).(Ptr)
			if p.IsNil() {
				fr.panicOut(it, "nil pointer dereference"+ex.prog.pos(in.Pos(), fr.fn))
				return false
			}
			if !fr.guard(it, c.Ult(idx, c.Int(a.Len())), "index out of range") {
				return false
			}
			fr.set(it, x, ex.elemPtr(it.st, p, idx, sizeof(a.Elem()), a.Len()))
		default:
			unsup("IndexAddr %v", x.X.Type())
		}
		return true
	case *ssa.Index:
		idx := ex.toInt64(fr.val(it, x.Index).(*Term), x.Index.Type())
		switch v := fr.val(it, x.X).(type) {
		case ArrayV:
			if !fr.guard(it, c.Ult(idx, c.Int(int64(len(v.E)))), "index out of range") {
				return false
			}
			k := ex.concrete(it.st, idx)
			fr.set(it, x, v.E[k])
		case Str:
			if !fr.guard(it, c.Ult(idx, v.Len), "index out of range") {
				return false
			}
			r, msg := ex.load(it.st, ex.elemPtr(it.st, v.P, idx, 1, ex.lenBound(v.Len)), types.Typ[types.Uint8])
			if msg != "" {
				fr.panicOut(it, msg)
				return false
			}
			fr.set(it, x, r)
		default:
			unsup("Index of %T", v)
		}
		return true
	case *ssa.Lookup:
		return fr.lookup(it, x)
	case *ssa.Slice:
		return fr.slice(it, x)
	case *ssa.MakeSlice:
		n := ex.toInt64(fr.val(it, x.Len).(*Term), x.Len.Type())
		cp := ex.toInt64(fr.val(it, x.Cap).(*Term), x.Cap.Type())
		nc := ex.concrete(st, cp)
		nl := n
		if n != cp {
			nl = c.Int(ex.concrete(st, n))
		} else {
			nl = c.Int(nc)
		}
		if nc < 0 || nc > 1<<26 || int64(nl.v) < 0 || int64(nl.v) > nc {
			fr.panicOut(it, "makeslice: len out of range"+ex.prog.pos(in.Pos(), fr.fn))
			return false
		}
		et := under(x.Type()).(*types.Slice).Elem()
		o := ex.alloc(st, nc*sizeof(et), "make")
		fr.set(it, x, Slice{P: Ptr{Obj: o.id}, Len: nl, Cap: c.Int(nc)})
		return true
	case *ssa.MakeInterface:
		fr.set(it, x, Iface{x.X.Type(), fr.val(it, x.X)})
		return true
	case *ssa.MakeClosure:
		f := Fn{F: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, fr.val(it, b))
		}
		fr.set(it, x, f)
		return true
	case *ssa.MakeMap:
		ex.objCtr++
		if st.maps == nil {
			st.maps = map[int]*MapObj{}
		}
		st.maps[ex.objCtr] = &MapObj{typ: under(x.Type()).(*types.Map)}
		fr.set(it, x, MapV{ex.objCtr})
		return true
	case *ssa.MapUpdate:
		ex.mapSet(st, fr.val(it, x.Map).(MapV), fr.val(it, x.Key), fr.val(it, x.Value))
		return true
	case *ssa.ChangeType:
		fr.set(it, x, fr.val(it, x.X))
		return true
	case *ssa.ChangeInterface:
		fr.set(it, x, fr.val(it, x.X))
		return true
	case *ssa.Convert:
		v, ok := fr.convert(it, x, fr.val(it, x.X), x.X.Type(), x.Type())
		if !ok {
			return false
		}
		fr.set(it, x, v)
		return true
	case *ssa.SliceToArrayPointer:
		s := fr.val(it, x.X).(Slice)
		n := under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
		if !fr.guard(it, c.Ule(c.Int(n), s.Len), "slice to array conversion") {
			return false
		}
		fr.set(it, x, s.P)
		return true
	case *ssa.TypeAssert:
		return fr.typeAssert(it, x)
	case *ssa.Extract:
		fr.set(it, x, fr.val(it, x.Tuple).(Tuple)[x.Index])
		return true
	case *ssa.Range:
		v := fr.val(it, x.X)
		switch m := v.(type) {
		case Str:
			n := ex.concrete(st, m.Len)
			fr.set(it, x, &mapIter{str: &Str{m.P, c.Int(n)}})
		case MapV:
			mi := &mapIter{}
			if m.ID != 0 {
				mo := ex.mapObj(st, m)
				mi.keys, mi.vals = mo.keys, mo.vals
			}
			fr.set(it, x, mi)
		default:
			unsup("range over %T", v)
		}
		return true
	case *ssa.Next:
		return fr.next(it, x)
	case *ssa.Jump:
		fr.goBlock(it, it.blk.Succs[0])
		return false
	case *ssa.If:
		cond := fr.val(it, x.Cond).(*Term)
		t, f := it.blk.Succs[0], it.blk.Succs[1]
		if cond.op == OpConst {
			if cond.v == 1 {
				fr.goBlock(it, t)
			} else {
				fr.goBlock(it, f)
			}
			return false
		}
		ft := ex.feasible(st, cond)
		ff := true
		if ft {
			ff = ex.feasible(st, c.Not(cond))
		}
		switch {
		case ft && ff:
			s2 := ex.clone(st)
			n := *it
			n.st = s2
			n.regs = append([]Value(nil), it.regs...)
			ex.addPC(st, cond)
			ex.addPC(s2, c.Not(cond))
			fr.goBlock(it, t)
			fr.goBlock(&n, f)
		case ft:
			fr.goBlock(it, t)
		default:
			fr.goBlock(it, f)
		}
		return false
	case *ssa.Return:
		var ret Value
		switch len(x.Results) {
		case 0:
		case 1:
			ret = fr.val(it, x.Results[0])
		default:
			tp := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				tp[i] = fr.val(it, r)
			}
			ret = tp
		}
		fr.addOut(Outcome{st: st, ret: ret})
		return false
	case *ssa.Panic:
		msg := "panic"
		if f, ok := fr.val(it, x.X).(Iface); ok {
			if s, ok := f.V.(Str); ok {
				if g, ok := ex.concStr(st, s); ok {
					msg = "panic: " + g
				}
			}
		}
		fr.panicOut(it, msg+ex.prog.pos(in.Pos(), fr.fn))
		return false
	case *ssa.Defer:
		d := deferred{}
		if x.Call.IsInvoke() {
			d.inv = &x.Call
			d.args = append(d.args, fr.val(it, x.Call.Value))
		} else {
			d.fn = fr.val(it, x.Call.Value).(Fn)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, fr.val(it, a))
		}
		it.defs = append(append([]deferred(nil), it.defs...), d)
		return true
	case *ssa.RunDefers:
		if len(it.defs) == 0 {
			return true
		}
		d := it.defs[len(it.defs)-1]
		it.defs = it.defs[:len(it.defs)-1]
		var outs []Outcome
		if d.inv != nil {
			outs = ex.invoke(st, d.args[0], d.inv.Method, d.args[1:])
		} else if d.fn.B != nil {
			outs = []Outcome{{st: st}}
		} else {
			outs = ex.call(st, d.fn, d.args)
		}
		// stay on the same instruction until all have run
		return fr.afterCall(it, nil, outs, true)
	case *ssa.Call:
		return fr.doCall(it, x)
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsup("concurrency instruction %T in %s", in, fr.fn)
	}
	unsup("instruction %T", in)
	return false
}

func (ex *Exec) lenBound(l *Term) int64 {
	if l.op == OpConst {
		return int64(l.v)
	}
	_, h := ex.c.urange(l)
	if h > 1<<40 {
		return 1 << 40
	}
	return int64(h)
}

// addOut adds a normal outcome, merging with an existing one if possible.
func (fr *frame) addOut(o Outcome) {
	for i := range fr.outs {
		p := &fr.outs[i]
		if p.pan != "" {
			continue
		}
		st, cond := fr.ex.mergeStates(p.st, o.st)
		if st == nil {
			continue
		}
		var v Value
		if p.ret != nil || o.ret != nil {
			var ok bool
			v, ok = fr.ex.iteV(cond, p.ret, o.ret)
			if !ok {
				continue
			}
		}
		fr.ex.merges++
		p.st, p.ret = st, v
		return
	}
	fr.outs = append(fr.outs, o)
}

// afterCall distributes call outcomes.  Returns true when exactly one
// normal outcome continues in place.
func (fr *frame) afterCall(it *item, dst ssa.Value, outs []Outcome, again bool) bool {
	var norm []Outcome
	for _, o := range outs {
		if o.pan != "" {
			fr.outs = append(fr.outs, o)
		} else {
			norm = append(norm, o)
		}
	}
	if len(norm) == 1 {
		it.st = norm[0].st
		if dst != nil && norm[0].ret != nil {
			fr.set(it, dst, norm[0].ret)
		}
		if again {
			it.pc--
		}
		return true
	}
	for i, o := range norm {
		n := *it
		n.st = o.st
		if i < len(norm)-1 {
			n.regs = append([]Value(nil), it.regs...)
		}
		if dst != nil && o.ret != nil {
			n.regs[fr.fi.idx[dst]] = o.ret
		}
		if !again {
			n.pc++
		}
		fr.push(&n)
	}
	return false
}

func (fr *frame) doCall(it *item, x *ssa.Call) bool {
	ex := fr.ex
	cc := &x.Call
	args := make([]Value, 0, len(cc.Args))
	for _, a := range cc.Args {
		args = append(args, fr.val(it, a))
	}
	if cc.IsInvoke() {
		recv := fr.val(it, cc.Value)
		f, ok := recv.(Iface)
		if ok && f.T == nil {
			fr.panicOut(it, "nil interface method call"+ex.prog.pos(x.Pos(), fr.fn))
			return false
		}
		return fr.afterCall(it, x, ex.invoke(it.st, recv, cc.Method, args), false)
	}
	f := fr.val(it, cc.Value).(Fn)
	if f.B != nil {
		return fr.builtin(it, x, f.B.Name(), args)
	}
	if f.F != nil && f.F.Name() == "init" && f.F.Synthetic == "package initializer" && ex.inits > 0 && fr.fn.Name() == "init" {
		// other packages are initialised on demand
		return true
	}
	if f.F != nil && strings.HasPrefix(f.F.Name(), "init#") && ex.inits > 0 && fr.fn.Name() == "init" && fr.fn.Synthetic != "" {
		if gs := deferrable(f.F); gs != nil {
			for _, g := range gs {
				ex.lazy[g] = append(ex.lazy[g], f.F)
			}
			return true
		}
	}
	return fr.afterCall(it, x, ex.call(it.st, f, args), false)
}

func (ex *Exec) invoke(st *State, recv Value, m *types.Func, args []Value) []Outcome {
	f, ok := recv.(Iface)
	if !ok {
		unsup("invoke on %T", recv)
	}
	if f.T == nil {
		return []Outcome{{st: st, pan: "nil interface method call " + m.Name()}}
	}
	fn := ex.prog.prog.LookupMethod(f.T, m.Pkg(), m.Name())
	if fn == nil {
		unsup("method %s of %v", m.Name(), f.T)
	}
	return ex.call(st, Fn{F: fn}, append([]Value{f.V}, args...))
}

func (fr *frame) unop(it *item, x *ssa.UnOp) bool {
	ex, c := fr.ex, fr.ex.c
	v := fr.val(it, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			unsup("deref of %T", v)
		}
		t := under(x.X.Type()).(*types.Pointer).Elem()
		r, msg := ex.load(it.st, p, t)
		if msg != "" {
			fr.panicOut(it, msg+ex.prog.pos(x.Pos(), fr.fn))
			return false
		}
		fr.set(it, x, r)
	case token.NOT:
		fr.set(it, x, c.Not(v.(*Term)))
	case token.SUB:
		switch z := v.(type) {
		case Complex:
			fr.set(it, x, Complex{c.FNeg(z.Re), c.FNeg(z.Im)})
		case *Term:
			if isFloat(x.Type()) {
				fr.set(it, x, c.FNeg(z))
			} else {
				fr.set(it, x, c.Neg(z))
			}
		}
	case token.XOR:
		fr.set(it, x, c.BNot(v.(*Term)))
	default:
		unsup("unop %v", x.Op)
	}
	return true
}

func (ex *Exec) cmplxMul(a, b Complex, w uint8) Complex {
	c := ex.c
	if w == 32 {
		ar, ai, br, bi := c.FCvt(a.Re, 64), c.FCvt(a.Im, 64), c.FCvt(b.Re, 64), c.FCvt(b.Im, 64)
		re := c.FSub(c.FMul(ar, br), c.FMul(ai, bi))
		im := c.FAdd(c.FMul(ar, bi), c.FMul(ai, br))
		return Complex{c.FCvt(re, 32), c.FCvt(im, 32)}
	}
	re := c.FSub(c.FMul(a.Re, b.Re), c.FMul(a.Im, b.Im))
	im := c.FAdd(c.FMul(a.Re, b.Im), c.FMul(a.Im, b.Re))
	return Complex{re, im}
}

func (fr *frame) binop(it *item, x *ssa.BinOp) (Value, bool) {
	ex, c := fr.ex, fr.ex.c
	a, b := fr.val(it, x.X), fr.val(it, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		e, ok := ex.equal(it.st, a, b, t)
		if !ok {
			unsup("comparison of %v", t)
		}
		if x.Op == token.NEQ {
			e = c.Not(e)
		}
		return e, true
	}
	if isComplex(t) {
		p, q := a.(Complex), b.(Complex)
		w := p.Re.w
		switch x.Op {
		case token.ADD:
			return Complex{c.FAdd(p.Re, q.Re), c.FAdd(p.Im, q.Im)}, true
		case token.SUB:
			return Complex{c.FSub(p.Re, q.Re), c.FSub(p.Im, q.Im)}, true
		case token.MUL:
			return ex.cmplxMul(p, q, w), true
		case token.QUO:
			return ex.cmplxDiv(p, q, w), true
		}
		unsup("complex op %v", x.Op)
	}
	if isString(t) {
		s, u := a.(Str), b.(Str)
		switch x.Op {
		case token.ADD:
			return ex.concat(it.st, []Str{s, u}), true
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ex.strLess(it.st, s, u, x.Op), true
		}
		unsup("string op %v", x.Op)
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %v on %T", x.Op, a)
	}
	if isFloat(t) {
		switch x.Op {
		case token.ADD:
			return c.FAdd(p, q), true
		case token.SUB:
			return c.FSub(p, q), true
		case token.MUL:
			return c.FMul(p, q), true
		case token.QUO:
			return c.FDiv(p, q), true
		case token.LSS:
			return c.FLt(p, q), true
		case token.LEQ:
			return c.FLe(p, q), true
		case token.GTR:
			return c.FLt(q, p), true
		case token.GEQ:
			return c.FLe(q, p), true
		}
		unsup("float op %v", x.Op)
	}
	sg := isSigned(t)
	switch x.Op {
	case token.ADD:
		return c.Add(p, q), true
	case token.SUB:
		return c.Sub(p, q), true
	case token.MUL:
		return c.Mul(p, q), true
	case token.QUO, token.REM:
		if !fr.guard(it, c.Not(c.Eq(q, c.Const(q.w, 0))), "integer divide by zero") {
			return nil, false
		}
		op := OpUDiv
		switch {
		case sg && x.Op == token.QUO:
			op = OpSDiv
		case sg:
			op = OpSRem
		case x.Op == token.REM:
			op = OpURem
		}
		return c.DivRem(op, p, q), true
	case token.AND:
		if p.w == 0 {
			return c.And(p, q), true
		}
		return c.BAnd(p, q), true
	case token.OR:
		if p.w == 0 {
			return c.Or(p, q), true
		}
		return c.BOr(p, q), true
	case token.XOR:
		return c.BXor(p, q), true
	case token.AND_NOT:
		return c.BAnd(p, c.BNot(q)), true
	case token.SHL, token.SHR:
		if isSigned(x.Y.Type()) {
			if !fr.guard(it, c.Sle(c.Const(q.w, 0), q), "negative shift amount") {
				return nil, false
			}
		}
		// widen the count to the operand width, saturating
		var n *Term
		if q.w <= p.w {
			n = c.ZExt(q, p.w)
		} else {
			big := c.Ule(c.Const(q.w, uint64(p.w)), q)
			n = c.Ite(big, c.Const(p.w, uint64(p.w)), c.Extract(q, 0, p.w))
		}
		if x.Op == token.SHL {
			return c.Shl(p, n), true
		}
		if sg {
			return c.Ashr(p, n), true
		}
		return c.Lshr(p, n), true
	case token.LSS:
		if sg {
			return c.Slt(p, q), true
		}
		return c.Ult(p, q), true
	case token.LEQ:
		if sg {
			return c.Sle(p, q), true
		}
		return c.Ule(p, q), true
	case token.GTR:
		if sg {
			return c.Slt(q, p), true
		}
		return c.Ult(q, p), true
	case token.GEQ:
		if sg {
			return c.Sle(q, p), true
		}
		return c.Ule(q, p), true
	}
	unsup("binop %v", x.Op)
	return nil, false
}

func (ex *Exec) cmplxDiv(a, b Complex, w uint8) Complex {
	c := ex.c
	if b.Re.IsConst() && b.Im.IsConst() && a.Re.IsConst() && a.Im.IsConst() {
		if w == 32 {
			r := complex(f32of(a.Re), f32of(a.Im)) / complex(f32of(b.Re), f32of(b.Im))
			return Complex{c.F32(real(r)), c.F32(imag(r))}
		}
		r := complex(f64of(a.Re), f64of(a.Im)) / complex(f64of(b.Re), f64of(b.Im))
		return Complex{c.F64(real(r)), c.F64(imag(r))}
	}
	// runtime.complex128div through its own source
	f := ex.prog.lookup("runtime", "complex128div")
	if f == nil {
		unsup("complex division")
	}
	cv := func(z Complex) Complex { return Complex{c.FCvt(z.Re, 64), c.FCvt(z.Im, 64)} }
	st := &State{gen: ex.newGen(), objs: map[int]*Object{}}
	old := ex.noFeas
	ex.noFeas = true
	outs := ex.call(st, Fn{F: f}, []Value{cv(a), cv(b)})
	ex.noFeas = old
	if len(outs) != 1 || outs[0].pan != "" {
		unsup("complex division outcomes")
	}
	z := outs[0].ret.(Complex)
	if w == 32 {
		return Complex{c.FCvt(z.Re, 32), c.FCvt(z.Im, 32)}
	}
	return z
}

// equal builds the Go == of two values.
func (ex *Exec) equal(st *State, a, b Value, t types.Type) (*Term, bool) {
	c := ex.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		if isFloat(t) {
			return c.FEq(x, y), true
		}
		return c.Eq(x, y), true
	case Complex:
		y := b.(Complex)
		return c.And(c.FEq(x.Re, y.Re), c.FEq(x.Im, y.Im)), true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return nil, false
		}
		if x.Obj != y.Obj {
			return c.False, true
		}
		if x == y {
			return c.True, true
		}
		if x.Idx == nil && y.Idx == nil {
			return c.Bool(x.Base == y.Base), true
		}
		return nil, false
	case Str:
		y := b.(Str)
		return ex.strEq(st, x, y), true
	case Slice:
		y := b.(Slice)
		if y.P.IsNil() {
			return c.Bool(x.P.IsNil()), true
		}
		if x.P.IsNil() {
			return c.Bool(y.P.IsNil()), true
		}
		return nil, false
	case Fn:
		y := b.(Fn)
		isNil := func(f Fn) bool { return f.F == nil && f.B == nil && f.Name == "" }
		if isNil(x) || isNil(y) {
			return c.Bool(isNil(x) && isNil(y)), true
		}
		return nil, false
	case MapV:
		y := b.(MapV)
		return c.Bool(x == y), true
	case Opaque:
		y, ok := b.(Opaque)
		return c.Bool(ok && x == y), true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.T == nil || y.T == nil {
			return c.Bool(x.T == nil && y.T == nil), true
		}
		if !types.Identical(x.T, y.T) {
			return c.False, true
		}
		return ex.equal(st, x.V, y.V, x.T)
	case StructV:
		y := b.(StructV)
		s := under(t).(*types.Struct)
		r := c.True
		for i := range x.F {
			e, ok := ex.equal(st, x.F[i], y.F[i], s.Field(i).Type())
			if !ok {
				return nil, false
			}
			r = c.And(r, e)
		}
		return r, true
	case ArrayV:
		y := b.(ArrayV)
		r := c.True
		for i := range x.E {
			e, ok := ex.equal(st, x.E[i], y.E[i], under(t).(*types.Array).Elem())
			if !ok {
				return nil, false
			}
			r = c.And(r, e)
		}
		return r, true
	}
	return nil, false
}

func (ex *Exec) strBytes(st *State, s Str, n int64) []*Term {
	r := make([]*Term, n)
	for i := int64(0); i < n; i++ {
		v, msg := ex.load(st, Ptr{Obj: s.P.Obj, Base: s.P.Base + i, Idx: s.P.Idx, Stride: s.P.Stride, Cnt: s.P.Cnt}, types.Typ[types.Uint8])
		if msg != "" {
			panic("string bytes: " + msg)
		}
		r[i] = v.(*Term)
	}
	return r
}

func (ex *Exec) strEq(st *State, a, b Str) *Term {
	c := ex.c
	if a.Len.op == OpConst && b.Len.op == OpConst {
		if a.Len.v != b.Len.v {
			return c.False
		}
	} else {
		// one side symbolic: equal iff lengths equal and bytes equal for that length
		if a.Len.op != OpConst {
			a, b = b, a
		}
		if a.Len.op != OpConst {
			n := ex.concrete(st, a.Len)
			a.Len = c.Int(n)
		}
		n := int64(a.Len.v)
		leq := c.Eq(a.Len, b.Len)
		if leq.IsFalse() || ex.lenBound(b.Len) < n {
			return c.False
		}
		if n == 0 {
			return leq
		}
		if ex.obj(st, b.P.Obj).size < b.P.Base+n {
			return c.False
		}
		b.Len = a.Len
		return c.And(leq, ex.strEq(st, a, b))
	}
	n := int64(a.Len.v)
	if a.P == b.P {
		return c.True
	}
	x, y := ex.strBytes(st, a, n), ex.strBytes(st, b, n)
	r := c.True
	for i := range x {
		r = c.And(r, c.Eq(x[i], y[i]))
	}
	return r
}

func (ex *Exec) strLess(st *State, a, b Str, op token.Token) *Term {
	c := ex.c
	switch op {
	case token.GTR:
		return ex.strLess(st, b, a, token.LSS)
	case token.GEQ:
		return c.Not(ex.strLess(st, a, b, token.LSS))
	case token.LEQ:
		return c.Not(ex.strLess(st, b, a, token.LSS))
	}
	na, nb := ex.concrete(st, a.Len), ex.concrete(st, b.Len)
	x, y := ex.strBytes(st, a, na), ex.strBytes(st, b, nb)
	r := c.Bool(na < nb)
	n := na
	if nb < n {
		n = nb
	}
	for i := n - 1; i >= 0; i-- {
		r = c.Ite(c.Ult(x[i], y[i]), c.True, c.Ite(c.Ult(y[i], x[i]), c.False, r))
	}
	return r
}

func (ex *Exec) newBytes(st *State, bs []*Term, name string) Ptr {
	if len(bs) == 0 {
		return Ptr{}
	}
	o := ex.alloc(st, int64(len(bs)), name)
	for i, b := range bs {
		ex.storeRaw(st, o, int64(i), 1, b)
	}
	return Ptr{Obj: o.id}
}

func (ex *Exec) concat(st *State, ss []Str) Str {
	var bs []*Term
	nonEmpty := 0
	var last Str
	for _, s := range ss {
		n := ex.concrete(st, s.Len)
		if n > 0 {
			nonEmpty++
			last = Str{s.P, ex.c.Int(n)}
		}
		bs = append(bs, ex.strBytes(st, s, n)...)
	}
	if nonEmpty == 1 {
		return last
	}
	return Str{P: ex.newBytes(st, bs, "string"), Len: ex.c.Int(int64(len(bs)))}
}

func (ex *Exec) concStr(st *State, s Str) (string, bool) {
	if s.Len.op != OpConst {
		return "", false
	}
	bs := ex.strBytes(st, s, int64(s.Len.v))
	out := make([]byte, len(bs))
	for i, b := range bs {
		if b.op != OpConst {
			return "", false
		}
		out[i] = byte(b.v)
	}
	return string(out), true
}

type mapIter struct {
	keys, vals []Value
	i          int
	str        *Str
}

func (fr *frame) next(it *item, x *ssa.Next) bool {
	ex, c := fr.ex, fr.ex.c
	mi := fr.val(it, x.Iter).(*mapIter)
	tt := x.Type().(*types.Tuple)
	if mi.str != nil {
		n := int(mi.str.Len.v)
		if mi.i >= n {
			fr.set(it, x, Tuple{c.False, c.Int(0), c.Const(32, 0)})
			return true
		}
		// decode one rune; multi-byte sequences need a concrete lead byte
		bs := ex.strBytes(it.st, *mi.str, int64(n))
		b0 := bs[mi.i]
		ascii := c.Ult(b0, c.Const(8, 0x80))
		if !ascii.IsTrue() {
			all := true
			raw := make([]byte, n)
			for i, b := range bs {
				if b.op != OpConst {
					all = false
					break
				}
				raw[i] = byte(b.v)
			}
			if !all {
				w, r := ex.decodeRune(bs[mi.i:])
				k := ex.concrete(it.st, w)
				nm := *mi
				nm.i += int(k)
				fr.set(it, x.Iter.(ssa.Value), &nm)
				fr.set(it, x, Tuple{c.True, c.Int(int64(mi.i)), r})
				return true
			}
			for i, r := range string(raw[mi.i:]) {
				_ = i
				w := len(string(r))
				if r == 0xfffd {
					w = 1
				}
				nm := *mi
				nm.i += w
				fr.set(it, x.Iter.(ssa.Value), &nm)
				fr.set(it, x, Tuple{c.True, c.Int(int64(mi.i)), c.Const(32, uint64(r))})
				return true
			}
		}
		nm := *mi
		nm.i++
		fr.set(it, x.Iter.(ssa.Value), &nm)
		fr.set(it, x, Tuple{c.True, c.Int(int64(mi.i)), c.ZExt(b0, 32)})
		return true
	}
	if mi.i >= len(mi.keys) {
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return c.Int(0)
			}
			return ex.zero(t)
		}
		fr.set(it, x, Tuple{c.False, z(tt.At(1).Type()), z(tt.At(2).Type())})
		return true
	}
	nm := *mi
	nm.i++
	fr.set(it, x.Iter.(ssa.Value), &nm)
	fr.set(it, x, Tuple{c.True, mi.keys[mi.i], mi.vals[mi.i]})
	return true
}

func (ex *Exec) mapObj(st *State, m MapV) *MapObj {
	if st.acc != nil {
		ex.note(st, m.ID, false)
	}
	if o, ok := st.maps[m.ID]; ok {
		return o
	}
	if o, ok := ex.base.maps[m.ID]; ok {
		return o
	}
	panic("no map")
}

func (ex *Exec) mapSet(st *State, m MapV, k, v Value) {
	if m.ID == 0 {
		unsup("assignment to nil map")
	}
	o := ex.mapObj(st, m)
	if st.acc != nil {
		ex.note(st, m.ID, true)
	}
	n := &MapObj{typ: o.typ, keys: append([]Value(nil), o.keys...), vals: append([]Value(nil), o.vals...)}
	if st.maps == nil {
		st.maps = map[int]*MapObj{}
	}
	for i := range n.keys {
		e, ok := ex.equal(st, n.keys[i], k, o.typ.Key())
		if !ok {
			unsup("map key comparison")
		}
		if e.IsTrue() {
			n.vals[i] = v
			st.maps[m.ID] = n
			return
		}
		if !e.IsFalse() {
			unsup("symbolic map key update")
		}
	}
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	st.maps[m.ID] = n
}

func (fr *frame) lookup(it *item, x *ssa.Lookup) bool {
	ex, c := fr.ex, fr.ex.c
	v := fr.val(it, x.X)
	switch m := v.(type) {
	case Str:
		idx := ex.toInt64(fr.val(it, x.Index).(*Term), x.Index.Type())
		if !fr.guard(it, c.Ult(idx, m.Len), "index out of range") {
			return false
		}
		r, msg := ex.load(it.st, ex.elemPtr(it.st, m.P, idx, 1, ex.lenBound(m.Len)), types.Typ[types.Uint8])
		if msg != "" {
			fr.panicOut(it, msg)
			return false
		}
		fr.set(it, x, r)
		return true
	case MapV:
		mt := under(x.X.Type()).(*types.Map)
		var res Value = ex.zero(mt.Elem())
		found := c.False
		if m.ID != 0 {
			o := ex.mapObj(it.st, m)
			k := fr.val(it, x.Index)
			for i := range o.keys {
				e, ok := ex.equal(it.st, o.keys[i], k, mt.Key())
				if !ok {
					unsup("map key comparison")
				}
				if e.IsFalse() {
					continue
				}
				if r, ok := ex.iteV(e, o.vals[i], res); ok {
					res = r
				} else if ex.concrete(it.st, c.BoolBV(e, 64)) == 1 {
					res, found = o.vals[i], c.True
					break
				} else {
					continue
				}
				found = c.Or(found, e)
			}
		}
		if x.CommaOk {
			fr.set(it, x, Tuple{res, found})
		} else {
			fr.set(it, x, res)
		}
		return true
	}
	unsup("lookup in %T", v)
	return false
}

func (fr *frame) slice(it *item, x *ssa.Slice) bool {
	ex, c := fr.ex, fr.ex.c
	v := fr.val(it, x.X)
	get := func(o ssa.Value, def *Term) *Term {
		if o == nil {
			return def
		}
		return ex.toInt64(fr.val(it, o).(*Term), o.Type())
	}
	fix := func(t *Term) *Term {
		if t.op == OpConst {
			return t
		}
		if cv, ok := it.st.conc[t.id]; ok {
			return c.Const(64, cv)
		}
		return t
	}
	var p Ptr
	var ln, cp *Term
	var es int64
	isStr := false
	switch s := v.(type) {
	case Slice:
		p, ln, cp = s.P, s.Len, s.Cap
		es = sizeof(under(x.X.Type()).(*types.Slice).Elem())
	case Str:
		p, ln, cp, es = s.P, s.Len, s.Len, 1
		isStr = true
	case Ptr:
		a := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		if s.IsNil() {
			fr.panicOut(it, "nil pointer dereference"+ex.prog.pos(x.Pos(), fr.fn))
			return false
		}
		p, ln, cp = s, c.Int(a.Len()), c.Int(a.Len())
		es = sizeof(a.Elem())
	default:
		unsup("slice of %T", v)
	}
	lo := fix(get(x.Low, c.Int(0)))
	hi := fix(get(x.High, ln))
	mx := fix(get(x.Max, cp))
	// 0 <= lo <= hi <= max <= cap
	ok := c.And(c.Ule(lo, hi), c.And(c.Ule(hi, mx), c.Ule(mx, cp)))
	if !fr.guard(it, ok, "slice bounds out of range") {
		return false
	}
	np := p
	lo = fix(lo)
	if lo.op != OpConst {
		n := ex.concrete(it.st, lo)
		lo = c.Int(n)
	}
	nl := fix(c.Sub(hi, lo))
	nc := fix(c.Sub(mx, lo))
	if nc.op != OpConst && !isStr {
		nc = c.Int(ex.concrete(it.st, nc))
	}
	if !p.IsNil() {
		np.Base += int64(lo.v) * es
	}
	if isStr {
		if nl.op != OpConst && ex.noMergeLen {
			nl = c.Int(ex.concrete(it.st, nl))
		}
		fr.set(it, x, Str{np, nl})
	} else {
		if nl.op != OpConst && ex.noMergeLen {
			nl = c.Int(ex.concrete(it.st, nl))
		}
		fr.set(it, x, Slice{np, nl, nc})
	}
	return true
}

func (fr *frame) typeAssert(it *item, x *ssa.TypeAssert) bool {
	ex, c := fr.ex, fr.ex.c
	f, isI := fr.val(it, x.X).(Iface)
	if !isI {
		unsup("type assertion on %T", fr.val(it, x.X))
	}
	ok := false
	var v Value
	if f.T != nil {
		if types.IsInterface(x.AssertedType) {
			ok = types.Implements(f.T, under(x.AssertedType).(*types.Interface))
			v = f
		} else {
			ok = types.Identical(f.T, x.AssertedType)
			v = f.V
		}
	}
	if !ok {
		v = ex.zero(x.AssertedType)
	}
	if x.CommaOk {
		fr.set(it, x, Tuple{v, c.Bool(ok)})
		return true
	}
	if !ok {
		fr.panicOut(it, "interface conversion"+ex.prog.pos(x.Pos(), fr.fn))
		return false
	}
	fr.set(it, x, v)
	return true
}

func (fr *frame) convert(it *item, x ssa.Instruction, v Value, from, to types.Type) (Value, bool) {
	ex, c := fr.ex, fr.ex.c
	fu, tu := under(from), under(to)
	switch t := v.(type) {
	case *Term:
		tb, ok := tu.(*types.Basic)
		if !ok {
			unsup("convert %v to %v", from, to)
		}
		fb := fu.(*types.Basic)
		tw, tf := basicWidth(tb)
		_, ff := basicWidth(fb)
		if tb.Info()&types.IsString != 0 {
			// string(rune)
			if t.op == OpConst {
				return ex.strConst(string(rune(sx(t.v, t.w)))), true
			}
			if !fr.guardAscii(it, t) {
				unsup("string(rune) of a symbolic value")
			}
			return Str{P: ex.newBytes(it.st, []*Term{c.Extract(t, 0, 8)}, "string(rune)"), Len: c.Int(1)}, true
		}
		if tb.Kind() == types.UnsafePointer {
			unsup("integer to pointer")
		}
		switch {
		case ff && tf:
			return c.FCvt(t, tw), true
		case ff && !tf:
			return ex.floatToIntOn(it.st, t, ex.floatToInt(t, tb)), true
		case !ff && tf:
			if isSigned(from) {
				return c.SIToF(t, tw), true
			}
			return c.UIToF(t, tw), true
		}
		if tw <= t.w {
			return c.Extract(t, 0, tw), true
		}
		if isSigned(from) {
			return c.SExt(t, tw), true
		}
		return c.ZExt(t, tw), true
	case Complex:
		w := uint8(64)
		if tu.(*types.Basic).Kind() == types.Complex64 {
			w = 32
		}
		return Complex{c.FCvt(t.Re, w), c.FCvt(t.Im, w)}, true
	case Ptr:
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.Uintptr {
			if t.IsNil() {
				return c.Int(0), true
			}
			if t.Idx != nil {
				unsup("address of symbolic element")
			}
			return c.Int(int64(ex.obj(it.st, t.Obj).addr()) + t.Base), true
		}
		return t, true
	case Str:
		if sl, ok := tu.(*types.Slice); ok {
			n := ex.concrete(it.st, t.Len)
			if sizeof(sl.Elem()) != 1 {
				unsup("[]rune conversion")
			}
			bs := ex.strBytes(it.st, t, n)
			return Slice{P: ex.allocFor(it.st, bs, "[]byte(string)"), Len: c.Int(n), Cap: c.Int(n)}, true
		}
		return t, true
	case Slice:
		if isString(to) {
			if sizeof(fu.(*types.Slice).Elem()) != 1 {
				unsup("string([]rune)")
			}
			n := ex.concrete(it.st, t.Len)
			bs := ex.strBytes(it.st, Str{P: t.P}, n)
			return Str{P: ex.newBytes(it.st, bs, "string([]byte)"), Len: c.Int(n)}, true
		}
		return t, true
	}
	return v, true
}

func (ex *Exec) allocFor(st *State, bs []*Term, name string) Ptr {
	o := ex.alloc(st, int64(len(bs)), name)
	for i, b := range bs {
		ex.storeRaw(st, o, int64(i), 1, b)
	}
	return Ptr{Obj: o.id}
}

func (fr *frame) guardAscii(it *item, t *Term) bool {
	_, h := fr.ex.c.urange(t)
	if h < 0x80 {
		return true
	}
	return !fr.ex.feasible(it.st, fr.ex.c.Ule(fr.ex.c.Const(t.w, 0x80), t))
}

// floatToInt follows the amd64 code generated by this toolchain.
func (ex *Exec) floatToInt(t *Term, to *types.Basic) *Term {
	c := ex.c
	w, _ := basicWidth(to)
	switch to.Kind() {
	case types.Int8, types.Int16, types.Uint8, types.Uint16:
		return c.Extract(c.FToSI(t, 32, false), 0, w)
	case types.Int32:
		return c.FToSI(t, 32, false)
	case types.Uint32:
		return c.Extract(c.FToSI(t, 64, false), 0, 32)
	case types.Int, types.Int64:
		return c.FToSI(t, 64, false)
	}
	// uint64, uint, uintptr: x < 2^63 ? cvt(x) : cvt(x - 2^63) ^ 2^63
	lim := c.fconst(t.w, 9223372036854775808.0, 9223372036854775808.0)
	a := c.FToSI(t, 64, false)
	b := c.BXor(c.FToSI(c.FSub(t, lim), 64, false), c.Const(64, 1<<63))
	return c.Ite(c.FLt(t, lim), a, b)
}

var _ = math.Pi
var _ = os.Stderr

// decodeRune decodes the first character of symbolic UTF-8 text: its width
// and its value, U+FFFD with width 1 for anything malformed.
func (ex *Exec) decodeRune(bs []*Term) (w, r *Term) {
	c := ex.c
	b8 := func(v uint64) *Term { return c.Const(8, v) }
	in := func(b *Term, lo, hi uint64) *Term {
		return c.And(c.Ule(b8(lo), b), c.Ule(b, b8(hi)))
	}
	bits := func(b *Term, m uint64, sh uint64) *Term {
		return c.Shl(c.ZExt(c.BAnd(b, b8(m)), 32), c.Const(32, sh))
	}
	b := bs[0]
	w, r = c.Int(1), c.Const(32, 0xfffd)
	cont := func(i int) *Term { return in(bs[i], 0x80, 0xbf) }
	if len(bs) > 3 {
		ok := c.And(c.Or(c.Or(c.And(c.Eq(b, b8(0xf0)), in(bs[1], 0x90, 0xbf)), c.And(in(b, 0xf1, 0xf3), cont(1))), c.And(c.Eq(b, b8(0xf4)), in(bs[1], 0x80, 0x8f))), c.And(cont(2), cont(3)))
		w = c.Ite(ok, c.Int(4), w)
		r = c.Ite(ok, c.BOr(c.BOr(bits(b, 7, 18), bits(bs[1], 0x3f, 12)), c.BOr(bits(bs[2], 0x3f, 6), bits(bs[3], 0x3f, 0))), r)
	}
	if len(bs) > 2 {
		lead := c.Or(in(b, 0xe1, 0xec), in(b, 0xee, 0xef))
		ok := c.And(c.Or(c.Or(c.And(c.Eq(b, b8(0xe0)), in(bs[1], 0xa0, 0xbf)), c.And(lead, cont(1))), c.And(c.Eq(b, b8(0xed)), in(bs[1], 0x80, 0x9f))), cont(2))
		w = c.Ite(ok, c.Int(3), w)
		r = c.Ite(ok, c.BOr(bits(b, 15, 12), c.BOr(bits(bs[1], 0x3f, 6), bits(bs[2], 0x3f, 0))), r)
	}
	if len(bs) > 1 {
		ok := c.And(in(b, 0xc2, 0xdf), cont(1))
		w = c.Ite(ok, c.Int(2), w)
		r = c.Ite(ok, c.BOr(bits(b, 31, 6), bits(bs[1], 0x3f, 0)), r)
	}
	ascii := c.Ult(b, b8(0x80))
	return c.Ite(ascii, c.Int(1), w), c.Ite(ascii, c.ZExt(b, 32), r)
}
