package main

import (
	"crypto/sha1"
	"encoding/binary"
	"sync"
	"time"
)

// group is a set of obligations whose goals are the same formula up to the
// names of the inputs.
type group struct {
	rep  *Oblig
	goal *Term
	key  string
	vars []*Term
	mem  []*Oblig
}

// canon serialises a term with inputs numbered in order of first occurrence.
func (c *Ctx) canon(t *Term, limit int) (string, []*Term, bool) {
	num := map[int32]uint32{}
	var vars []*Term
	h := sha1.New()
	var buf []byte
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	n := uint32(0)
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := num[f.t.id]; ok {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if _, ok := num[a.id]; !ok {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		buf = buf[:0]
		buf = append(buf, byte(x.op), x.w, byte(len(x.args)))
		if x.op == OpVar {
			buf = binary.LittleEndian.AppendUint64(buf, uint64(len(vars)))
			if x.flt {
				buf = append(buf, 'f')
			}
			vars = append(vars, x)
		} else {
			buf = binary.LittleEndian.AppendUint64(buf, x.v)
			if x.name != "" {
				buf = append(buf, x.name...)
				buf = append(buf, 0)
			}
		}
		for _, a := range x.args {
			buf = binary.LittleEndian.AppendUint32(buf, num[a.id])
		}
		h.Write(buf)
		num[x.id] = n
		n++
		if int(n) > limit {
			return "", nil, false
		}
		st = st[:len(st)-1]
	}
	return string(h.Sum(nil)), vars, true
}

// proofs remembers, per canonical goal, how far it has been decided.
type proofEntry struct {
	sync.Mutex
	by    string // "uf", "mix", "fp" when proved
	tried map[string]*triedRes
}
type triedRes struct {
	res   string
	model []uint64 // by canonical input number, for sat
	dur   time.Duration
}

var (
	proofMu sync.Mutex
	proofs  = map[string]*proofEntry{}
)

func proof(key string) *proofEntry {
	proofMu.Lock()
	defer proofMu.Unlock()
	p := proofs[key]
	if p == nil {
		p = &proofEntry{tried: map[string]*triedRes{}}
		proofs[key] = p
	}
	return p
}

func (g *group) provedBy() string {
	if g.key == "" {
		return ""
	}
	p := proof(g.key)
	p.Lock()
	defer p.Unlock()
	return p.by
}

func (g *group) mark(by string) {
	if g.key == "" {
		return
	}
	p := proof(g.key)
	p.Lock()
	if p.by == "" {
		p.by = by
	}
	p.Unlock()
}

// solveGroup decides one goal in a mode, sharing the answer with every other
// job that has the same goal.
func (g *group) solve(mode FMode, timeout time.Duration) SolveResult {
	if g.key == "" {
		return Solve(mode, []*Term{g.goal}, timeout)
	}
	p := proof(g.key)
	p.Lock()
	defer p.Unlock()
	if p.by != "" {
		return SolveResult{Res: "unsat", Solver: "cache"}
	}
	ms := mode.String()
	if t := p.tried[ms]; t != nil && (t.res == "sat" || t.dur >= timeout*3/4) {
		r := SolveResult{Res: t.res, Model: Model{}, Solver: "cache"}
		if t.res == "sat" {
			for i, v := range g.vars {
				if i < len(t.model) {
					r.Model[v.name] = t.model[i]
				}
			}
		}
		return r
	}
	res := Solve(mode, []*Term{g.goal}, timeout)
	if res.Res == "unsat" {
		p.by = ms
		return res
	}
	t := &triedRes{res: res.Res, dur: timeout}
	if res.Res == "sat" {
		for _, v := range g.vars {
			t.model = append(t.model, res.Model[v.name])
		}
	}
	p.tried[ms] = t
	return res
}

func (g *group) solveOrd(timeout time.Duration) bool {
	if g.key == "" {
		return solveOrd(g.goal, timeout)
	}
	p := proof(g.key)
	p.Lock()
	defer p.Unlock()
	if p.by != "" {
		return true
	}
	if p.tried["ord"] != nil {
		return false
	}
	if solveOrd(g.goal, timeout) {
		p.by = "uf"
		return true
	}
	p.tried["ord"] = &triedRes{res: "unknown", dur: timeout}
	return false
}

func (r *JobResult) count(by string, n int) {
	switch by {
	case "uf":
		r.byUF += n
	case "real":
		r.byReal += n
	default:
		r.byFP += n
	}
}

func (s *Session) decide(ex *Exec, r *JobResult, deadline time.Time) {
	r.obligs = len(ex.obligs)
	left := func() time.Duration { return time.Until(deadline) }
	var open []*group
	var rest []*Oblig
	idx := map[string]*group{}
	var all []*Oblig
	for _, o := range ex.obligs {
		if o.kind == "bound" || o.kind == "angle" {
			rest = append(rest, o)
			continue
		}
		g := ex.goal(o)
		if g.op == OpConst && g.v == 0 {
			// the negated obligation folded to false while it was built
			r.byUF++
			r.folded++
			continue
		}
		all = append(all, o)
		key, vars, ok := ex.c.canon(g, 4000)
		if !ok {
			open = append(open, &group{rep: o, goal: g, mem: []*Oblig{o}})
			continue
		}
		if x := idx[key]; x != nil {
			x.mem = append(x.mem, o)
			continue
		}
		x := &group{rep: o, goal: g, key: key, vars: vars, mem: []*Oblig{o}}
		idx[key] = x
		open = append(open, x)
	}
	r.goals = len(open)
	{
		var o2 []*group
		for _, g := range open {
			if by := g.provedBy(); by != "" {
				r.count(by, len(g.mem))
				continue
			}
			o2 = append(o2, g)
		}
		open = o2
	}
	{
		// linear algebra over GF(2)
		var o2 []*group
		for _, g := range open {
			if xorHeavy([]*Term{g.goal}, 12) && ex.linear().unsat([]*Term{g.goal}, 3) {
				g.mark("uf")
				r.byUF += len(g.mem)
				r.lin += len(g.mem)
				continue
			}
			if t, d := ex.withoutChains(g.goal); d && Solve(ModeUF, []*Term{t}, 20*time.Second).Res == "unsat" {
				g.mark("uf")
				r.byUF += len(g.mem)
				continue
			}
			o2 = append(o2, g)
		}
		open = o2
	}
	{
		var o2 []*group
		t0 := time.Now()
		for _, g := range open {
			if time.Since(t0) < left()/2 && orderGoal(g.goal) && g.solveOrd(20*time.Second) {
				r.byUF += len(g.mem)
				continue
			}
			o2 = append(o2, g)
		}
		open = o2
	}
	{
		// formulas are tried over the reals first
		var o2, fg []*group
		var reps []*Oblig
		for _, g := range open {
			if g.rep.real != nil && g.rep.real.formula {
				fg = append(fg, g)
				reps = append(reps, g.rep)
			} else {
				o2 = append(o2, g)
			}
		}
		if len(fg) > 0 {
			ok, stop := s.decideFormulas(ex, r, reps, left)
			if stop {
				return
			}
			for i, g := range fg {
				if ok[i] {
					g.mark("real")
					r.byReal += len(g.mem)
				} else {
					o2 = append(o2, g)
				}
			}
		}
		open = o2
	}
	if len(open) > 0 {
		gs := make([]*Term, len(open))
		for i, g := range open {
			gs[i] = g.goal
		}
		res := Solve(ModeUF, []*Term{ex.disj(gs)}, minDur(left()/2, 240*time.Second))
		if res.Res == "unsat" {
			for _, g := range open {
				g.mark("uf")
				r.byUF += len(g.mem)
			}
			open = nil
		} else {
			if res.Res == "sat" {
				if s.tryModel(ex, r, all, res.Model) {
					return
				}
			}
			gr := open
			open = nil
			s.split(ex, r, gr, gs, left()/3, &open)
		}
	}
	if len(open) > 0 {
		var obs []*Oblig
		for _, g := range open {
			obs = append(obs, g.mem...)
		}
		if s.search(ex, r, obs, minDur(left()/6, 2*time.Second), nil) {
			return
		}
		for i, g := range open {
			if left() < time.Second || g.rep.kind == "formula" {
				rest = append(rest, g.mem...)
				continue
			}
			done := false
			for _, mode := range []FMode{ModeMix, ModeFP} {
				lim := left() / time.Duration(2+(len(open)-i)/8)
				if mode == ModeMix {
					lim = minDur(lim, 60*time.Second)
				}
				res := g.solve(mode, minDur(lim, 300*time.Second))
				if res.Res == "unsat" {
					r.byFP += len(g.mem)
					done = true
					break
				}
				if res.Res == "sat" && s.tryModel(ex, r, []*Oblig{g.rep}, res.Model) {
					return
				}
			}
			if !done {
				rest = append(rest, g.mem...)
			}
		}
	}
	var undecided []*Oblig
	var bounds, angles []*Oblig
	for _, o := range rest {
		if o.kind == "bound" {
			bounds = append(bounds, o)
		} else if o.kind == "angle" {
			angles = append(angles, o)
		} else {
			undecided = append(undecided, o)
		}
	}
	for i, ok := range s.decideBounds(ex, r, bounds, left) {
		if !ok {
			undecided = append(undecided, bounds[i])
		}
	}
	if len(angles) > 0 {
		if s.search(ex, r, angles, minDur(left()/8, 2*time.Second), nil) {
			return
		}
		proved, stop := s.decideAngles(ex, r, angles, left)
		if stop {
			return
		}
		for i, ok := range proved {
			if !ok {
				undecided = append(undecided, angles[i])
			}
		}
	}
	if len(undecided) > 0 && r.violation == nil {
		if s.search(ex, r, undecided, minDur(left()/2, 6*time.Second), nil) {
			return
		}
	}
	r.open = undecided
}

// split narrows a failed batch down to the goals that are not proved.
func (s *Session) split(ex *Exec, r *JobResult, obs []*group, gs []*Term, budget time.Duration, open *[]*group) {
	deadline := time.Now().Add(budget)
	var rec func(lo, hi int)
	rec = func(lo, hi int) {
		if time.Now().After(deadline) || len(*open) > 64 {
			*open = append(*open, obs[lo:hi]...)
			return
		}
		var res SolveResult
		if hi-lo == 1 {
			res = obs[lo].solve(ModeUF, 15*time.Second)
		} else {
			res = Solve(ModeUF, []*Term{ex.disj(gs[lo:hi])}, 15*time.Second)
		}
		if res.Res == "unsat" {
			for _, g := range obs[lo:hi] {
				g.mark("uf")
				r.byUF += len(g.mem)
			}
			return
		}
		if hi-lo == 1 {
			*open = append(*open, obs[lo])
			return
		}
		m := (lo + hi) / 2
		rec(lo, m)
		rec(m, hi)
	}
	if len(obs) == 1 {
		*open = append(*open, obs[0])
		return
	}
	m := len(obs) / 2
	rec(0, m)
	rec(m, len(obs))
}
