package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RealOb is an obligation decided over the reals (or bit-exactly).
type RealOb struct {
	got, want, scale *Term
	tol              float64
	formula, close   bool
	angle            *angleOb
}
type RealAtom struct{}
type Machine struct{}

func one(st *State, v Value) []Outcome { return []Outcome{{st: st, ret: v}} }

// inputName gives the name of the k-th use of a harness name on a path: the
// name the native run gives it.
func (ex *Exec) inputName(st *State, name string) string {
	k := st.names[name]
	m := make(map[string]int, len(st.names)+1)
	for a, b := range st.names {
		m[a] = b
	}
	m[name] = k + 1
	st.names = m
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

// varName gives the unique name of the k-th use of a harness name.
func (ex *Exec) varName(name string) string {
	k := ex.uid[name]
	ex.uid[name]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

func (ex *Exec) input(name string, w uint8, flt bool) *Term {
	return ex.c.Var(name, w, flt)
}

func (ex *Exec) mustStr(st *State, v Value) string {
	s, ok := ex.concStr(st, v.(Str))
	if !ok {
		unsup("symbolic string given to harness interface")
	}
	return s
}

// buffer creates an external memory object of n elements.
func (ex *Exec) buffer(st *State, name string, n, align int64, esz int64, parts int, flt bool) Slice {
	name = ex.inputName(st, name)
	o := ex.alloc(st, n*esz, name)
	o.align = align
	o.ext = true
	ps := esz / int64(parts)
	k := 0
	for off := int64(0); off < n*esz; off += ps {
		ex.storeRaw(st, o, off, ps, ex.input(fmt.Sprintf("%s[%d]", name, k), uint8(ps*8), flt))
		k++
	}
	// As if cut from something longer, which is not for the code to touch.
	return Slice{P: Ptr{Obj: o.id}, Len: ex.c.Int(n), Cap: ex.c.Int(n + spareCap)}
}

const spareCap = 16

func (ex *Exec) same(a, b *Term) *Term {
	c := ex.c
	if a == b {
		return c.True
	}
	return c.Or(c.Eq(a, b), c.And(c.FIsNaN(a), c.FIsNaN(b)))
}

// eqOblig records got == want, keeping both sides visible to the solver.
func (ex *Exec) eqOblig(st *State, got, want *Term, flt bool, msg string, i *Term) {
	cond := ex.c.Eq(got, want)
	if flt {
		cond = ex.same(got, want)
	}
	idx := int64(-1)
	if i != nil && i.op == OpConst {
		idx = sx(i.v, 64)
	}
	ob := &Oblig{cond: cond, msg: fmt.Sprintf("%s [%d]", msg, idx), kind: "assert", got: got, want: want, flt: flt}
	ob.pc = st.pc.list()
	ex.obligs = append(ex.obligs, ob)
}

func (ex *Exec) ndCall(st *State, name string, args []Value) ([]Outcome, bool) {
	c := ex.c
	t := func(i int) *Term { return args[i].(*Term) }
	conc := func(i int) int64 { return ex.concrete(st, t(i)) }
	scalar := func(w uint8, flt bool) []Outcome {
		return one(st, ex.input(ex.inputName(st, ex.mustStr(st, args[0])), w, flt))
	}
	switch name {
	case "Reg":
		return one(st, nil), true
	case "P":
		i := conc(0)
		if ex.job == nil || i >= int64(len(ex.job.Params)) {
			unsup("job parameter %d", i)
		}
		return one(st, c.Int(int64(ex.job.Params[i]))), true
	case "Bool":
		v := ex.input(ex.inputName(st, ex.mustStr(st, args[0])), 8, false)
		return one(st, c.Not(c.Eq(v, c.Const(8, 0)))), true
	case "U8", "I8":
		return scalar(8, false), true
	case "U16", "I16":
		return scalar(16, false), true
	case "U32", "I32":
		return scalar(32, false), true
	case "U64", "I64":
		return scalar(64, false), true
	case "F32":
		return scalar(32, true), true
	case "F64":
		return scalar(64, true), true
	case "C64":
		n := ex.mustStr(st, args[0])
		re := ex.input(ex.inputName(st, n+".re"), 32, true)
		return one(st, Complex{re, ex.input(ex.inputName(st, n+".im"), 32, true)}), true
	case "C128":
		n := ex.mustStr(st, args[0])
		re := ex.input(ex.inputName(st, n+".re"), 64, true)
		return one(st, Complex{re, ex.input(ex.inputName(st, n+".im"), 64, true)}), true
	case "Bytes", "I8s":
		return one(st, ex.buffer(st, ex.mustStr(st, args[0]), conc(1), conc(2), 1, 1, false)), true
	case "I16s":
		return one(st, ex.buffer(st, ex.mustStr(st, args[0]), conc(1), conc(2), 2, 1, false)), true
	case "I32s":
		return one(st, ex.buffer(st, ex.mustStr(st, args[0]), conc(1), conc(2), 4, 1, false)), true
	case "F32s":
		return one(st, ex.buffer(st, ex.mustStr(st, args[0]), conc(1), conc(2), 4, 1, true)), true
	case "F64s":
		return one(st, ex.buffer(st, ex.mustStr(st, args[0]), conc(1), conc(2), 8, 1, true)), true
	case "C64s":
		return one(st, ex.buffer(st, ex.mustStr(st, args[0]), conc(1), conc(2), 8, 2, true)), true
	case "C128s":
		return one(st, ex.buffer(st, ex.mustStr(st, args[0]), conc(1), conc(2), 16, 2, true)), true
	case "Assume":
		p := t(0)
		if p.IsFalse() || !ex.feasible(st, p) {
			return nil, true
		}
		ex.addPC(st, p)
		return one(st, nil), true
	case "Assert", "AssertI":
		msg := ex.mustStr(st, args[1])
		idx := int64(0)
		if name == "AssertI" {
			idx = -1
			if t(2).op == OpConst {
				idx = sx(t(2).v, 64)
			}
			msg = fmt.Sprintf("%s [%d]", msg, idx)
		}
		ex.oblige(st, t(0), "assert", msg)
		last := ex.obligs[len(ex.obligs)-1]
		last.got = c.BoolBV(t(0), 64)
		last.pc = st.pc.list()
		return one(st, nil), true
	case "EqI":
		ex.eqOblig(st, t(0), t(1), false, ex.mustStr(st, args[2]), t(3))
		return one(st, nil), true
	case "Eq32", "Eq64":
		ex.eqOblig(st, t(0), t(1), true, ex.mustStr(st, args[2]), t(3))
		return one(st, nil), true
	case "EqC64", "EqC128":
		a, b := args[0].(Complex), args[1].(Complex)
		m := ex.mustStr(st, args[2])
		ex.eqOblig(st, a.Re, b.Re, true, m+" re", t(3))
		ex.eqOblig(st, a.Im, b.Im, true, m+" im", t(3))
		return one(st, nil), true
	case "EqC64Or":
		a, b, d := args[0].(Complex), args[1].(Complex), args[2].(Complex)
		m := ex.mustStr(st, args[3])
		for _, p := range []struct {
			g, w, a *Term
			s       string
		}{{a.Re, b.Re, d.Re, " re"}, {a.Im, b.Im, d.Im, " im"}} {
			if p.g == p.a {
				p.w = p.a
			}
			ex.eqOblig(st, p.g, p.w, true, m+p.s, t(4))
			if ob := ex.obligs[len(ex.obligs)-1]; ob.cond.op != OpConst {
				ob.cond = c.Or(ob.cond, ex.same(p.g, p.a))
			}
		}
		return one(st, nil), true
	case "Formula":
		tol := t(3)
		if tol.op != OpConst {
			unsup("symbolic tolerance")
		}
		m := ex.mustStr(st, args[4])
		ob := &Oblig{pc: st.pc.list(), cond: ex.same(t(0), t(1)), kind: "formula", msg: fmt.Sprintf("%s [%d]", m, ex.idxOf(t(5))),
			real: &RealOb{got: t(0), want: t(1), scale: t(2), tol: f64of(tol), formula: true}}
		ex.obligs = append(ex.obligs, ob)
		return one(st, nil), true
	case "Close":
		m := ex.mustStr(st, args[3])
		ob := &Oblig{pc: st.pc.list(), cond: ex.same(t(0), t(1)), kind: "formula", msg: fmt.Sprintf("%s [%d]", m, ex.idxOf(t(4))),
			real: &RealOb{got: t(0), want: t(1), scale: t(2), tol: 1, close: true}}
		ex.obligs = append(ex.obligs, ob)
		return one(st, nil), true
	case "Bound":
		tol := t(2)
		if tol.op != OpConst {
			unsup("symbolic tolerance")
		}
		m := ex.mustStr(st, args[3])
		ob := &Oblig{pc: st.pc.list(), cond: c.FLe(c.FAbs(c.FSub(t(0), t(1))), tol), kind: "bound", msg: fmt.Sprintf("%s [%d]", m, ex.idxOf(t(4))),
			real: &RealOb{got: t(0), want: t(1), tol: f64of(tol)}}
		ex.obligs = append(ex.obligs, ob)
		return one(st, nil), true
	case "Angle", "AngleIn":
		a := &angleOb{y: t(1), x: t(2), in: name == "AngleIn"}
		if t(3).op != OpConst || a.in && t(4).op != OpConst {
			unsup("symbolic tolerance")
		}
		n := 4
		ob := &Oblig{pc: st.pc.list(), kind: "angle", real: &RealOb{got: t(0), tol: f64of(t(3)), angle: a}}
		if a.in {
			n = 5
			a.lo, a.hi = f64of(t(3)), f64of(t(4))
			ob.cond = c.And(c.FLe(t(3), t(0)), c.FLe(t(0), t(4)))
		} else {
			w := c.UF("atan2", 64, c.FAdd(t(1), c.F64(0)), t(2))
			ob.cond = c.FLe(c.FAbs(c.FSub(t(0), w)), t(3))
		}
		ob.msg = fmt.Sprintf("%s [%d]", ex.mustStr(st, args[n]), ex.idxOf(t(n+1)))
		ex.obligs = append(ex.obligs, ob)
		return one(st, nil), true
	case "Try":
		ex.tryDepth++
		outs := ex.call(st, args[0].(Fn), nil)
		ex.tryDepth--
		var r []Outcome
		for _, o := range outs {
			if o.fault {
				r = append(r, o)
				continue
			}
			r = append(r, Outcome{st: o.st, ret: c.Bool(o.pan != "")})
		}
		return r, true
	case "Par":
		// two goroutines: whatever the schedule, neither uses memory that the
		// other writes
		if st.acc != nil {
			unsup("nested nd.Par")
		}
		limit := ex.objCtr
		var r []Outcome
		st.acc = &access{limit, map[int]bool{}, map[int]bool{}}
		for _, o := range ex.call(st, args[0].(Fn), nil) {
			if o.fault || o.pan != "" {
				r = append(r, o)
				continue
			}
			first := o.st.acc
			o.st.acc = &access{limit, map[int]bool{}, map[int]bool{}}
			for _, o2 := range ex.call(o.st, args[1].(Fn), nil) {
				if o2.fault || o2.pan != "" {
					r = append(r, o2)
					continue
				}
				second := o2.st.acc
				o2.st.acc = nil
				clash := func(a, b map[int]bool, what string) {
					var ids []int
					for id := range a {
						if b[id] {
							ids = append(ids, id)
						}
					}
					sort.Ints(ids)
					for _, id := range ids {
						name := "a map"
						if ob := o2.st.objs[id]; ob != nil {
							name = ob.name
						} else if ob := ex.base.objs[id]; ob != nil {
							name = ob.name
						}
						ex.oblige(o2.st, c.False, "assert", name+" is "+what)
					}
				}
				clash(first.w, second.w, "written by both")
				clash(first.w, second.r, "written by one and read by the other")
				clash(second.w, first.r, "written by one and read by the other")
				ex.oblige(o2.st, c.True, "assert", "no memory in common that is written")
				r = append(r, Outcome{st: o2.st})
			}
		}
		return r, true
	case "Freeze":
		// the most recently created external buffer becomes read-only
		best := 0
		for id, o := range st.objs {
			if o.ext && id > best {
				best = id
			}
		}
		if best > 0 {
			ex.wobj(st, best).ro = true
		}
		return one(st, nil), true
	case "And":
		return one(st, c.And(t(0), t(1))), true
	case "Or":
		return one(st, c.Or(t(0), t(1))), true
	case "Imp":
		return one(st, c.Implies(t(0), t(1))), true
	case "IteI", "Ite32", "Ite64":
		return one(st, c.Ite(t(0), t(1), t(2))), true
	case "Symbolic":
		return one(st, c.True), true
	case "Feature":
		if ex.featObj == nil {
			ex.featObj = map[string]*Term{}
		}
		ex.featObj[ex.mustStr(st, args[0])] = t(1)
		return one(st, nil), true
	case "Fork":
		p := t(0)
		if p.op == OpConst {
			return one(st, p), true
		}
		v := ex.concrete(st, c.BoolBV(p, 64))
		return one(st, c.Bool(v == 1)), true
	case "Conc":
		return one(st, c.Int(conc(0))), true
	}
	return nil, false
}

func (ex *Exec) idxOf(t *Term) int64 {
	if t.op == OpConst {
		return sx(t.v, 64)
	}
	return -1
}

func (ex *Exec) intrinsic(st *State, fn *ssa.Function, args []Value) ([]Outcome, bool) {
	c := ex.c
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if pkg == ndPath {
		if o, ok := ex.ndCall(st, fn.Name(), args); ok {
			return o, true
		}
		return nil, false
	}
	name := fn.String()
	t := func(i int) *Term { return args[i].(*Term) }
	switch pkg {
	case "math":
		if len(args) >= 1 {
			if a, ok := args[0].(*Term); ok {
				switch fn.Name() {
				case "Float64bits", "Float32bits", "Float64frombits", "Float32frombits":
					return one(st, a), true
				case "Abs":
					return one(st, c.FAbs(a)), true
				case "Sqrt", "sqrt":
					return one(st, c.FSqrt(a)), true
				case "Floor", "floor":
					return one(st, c.FRound(a, 1)), true
				case "Ceil", "ceil":
					return one(st, c.FRound(a, 2)), true
				case "Trunc", "trunc":
					return one(st, c.FRound(a, 3)), true
				case "Modf":
					i := c.FRound(a, 3)
					d := c.FSub(a, i)
					// the sign of a zero is kept
					neg := c.Eq(c.Extract(a, 63, 1), c.Const(1, 1))
					if ex.concrete(st, c.BoolBV(neg, 64)) == 1 {
						d = c.FNeg(c.FSub(c.FAbs(a), c.FAbs(i)))
					}
					return one(st, Tuple{i, d}), true
				case "Copysign":
					x := c.FAbs(a)
					return one(st, c.Ite(c.Eq(c.Extract(t(1), 63, 1), c.Const(1, 1)), c.FNeg(x), x)), true
				case "RoundToEven":
					return one(st, c.FRound(a, 0)), true
				case "IsNaN":
					return one(st, c.FIsNaN(a)), true
				case "Sin", "Cos", "Tan", "Atan", "Exp", "Log", "Log10", "Log2", "Sinh", "Cosh":
					return one(st, c.UF(strings.ToLower(fn.Name()), 64, a)), true
				case "Atan2", "Pow", "Hypot", "Mod":
					return one(st, c.UF(strings.ToLower(fn.Name()), 64, a, t(1))), true
				case "Max", "Min", "max", "min":
					x, y := a, t(1)
					sign, first, inf := c.Eq(c.Extract(x, 63, 1), c.Const(1, 0)), c.FLt(y, x), c.F64(math.Inf(1))
					if fn.Name()[1] == 'i' {
						sign, first, inf = c.Not(sign), c.FLt(x, y), c.F64(math.Inf(-1))
					}
					r := c.Ite(c.Or(first, c.And(c.FEq(x, y), sign)), x, y)
					r = c.Ite(c.Or(c.FIsNaN(x), c.FIsNaN(y)), c.F64(math.NaN()), r)
					return one(st, c.Ite(c.Or(c.FEq(x, inf), c.FEq(y, inf)), inf, r)), true
				case "Sincos":
					return one(st, Tuple{c.UF("sin", 64, a), c.UF("cos", 64, a)}), true
				case "FMA":
					return one(st, c.UF("fma", 64, a, t(1), t(2))), true
				}
			}
		}
	case "internal/bytealg":
		return ex.bytealg(st, fn.Name(), args)
	case "runtime":
		switch fn.Name() {
		case "KeepAlive", "GC", "Gosched":
			return one(st, nil), true
		}
	case "sync":
		switch name {
		case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
			return one(st, nil), true
		}
	case "log":
		switch fn.Name() {
		case "Printf", "Println", "Print":
			return one(st, nil), true
		}
	case "fmt":
		switch fn.Name() {
		case "Sprintf":
			if f, ok := ex.concStr(st, args[0].(Str)); ok && ex.inits == 0 {
				if r, ok := ex.sprintf(st, f, args[1]); ok {
					return one(st, r), true
				}
			}
			return one(st, ex.opaqueStr(fn.Name())), true
		case "Sprint", "Sprintln":
			if ex.inits == 0 {
				if r, ok := ex.sprint(st, args[0], fn.Name() == "Sprintln"); ok {
					return one(st, r), true
				}
			}
			return one(st, ex.opaqueStr(fn.Name())), true
		case "Errorf":
			// an error value with some text
			return one(st, ex.newError(st, "fmt.Errorf")), true
		case "Printf", "Println", "Print":
			return one(st, Tuple{c.Int(0), Iface{}}), true
		case "Fprintf", "Fprint", "Fprintln":
			if w, ok := args[0].(Iface); ok && w.T != nil && ex.inits == 0 && w.T.String() != "*os.File" {
				var s Str
				ok := false
				if fn.Name() == "Fprintf" {
					if f, isC := ex.concStr(st, args[1].(Str)); isC {
						s, ok = ex.sprintf(st, f, args[2])
					}
				} else {
					s, ok = ex.sprint(st, args[1], fn.Name() == "Fprintln")
				}
				if !ok {
					unsup("fmt.%s: a verb or operand that is not modelled", fn.Name())
				}
				m, _, _ := types.LookupFieldOrMethod(w.T, true, nil, "Write")
				if m, isF := m.(*types.Func); isF {
					return ex.invoke(st, w, m, []Value{Slice{P: s.P, Len: s.Len, Cap: s.Len}}), true
				}
			}
			return one(st, Tuple{c.Int(0), Iface{}}), true
		}
	case "errors":
		if fn.Name() == "New" && ex.inits == 0 {
			return one(st, ex.newErrorStr(st, args[0].(Str))), true
		}
	case "strconv":
		if o, ok := ex.strconvCall(st, fn.Name(), args); ok {
			return o, true
		}
	case "unicode":
		if r, ok := args[0].(*Term); ok && fn.Name() == "IsSpace" {
			res := c.False
			for _, k := range [][2]uint64{{9, 13}, {' ', ' '}, {0x85, 0x85}, {0xa0, 0xa0}, {0x1680, 0x1680}, {0x2000, 0x200a}, {0x2028, 0x2029}, {0x202f, 0x202f}, {0x205f, 0x205f}, {0x3000, 0x3000}} {
				res = c.Or(res, c.And(c.Ule(c.Const(32, k[0]), r), c.Ule(r, c.Const(32, k[1]))))
			}
			return one(st, res), true
		}
	case "bytes":
		if fn.Name() == "TrimSpace" {
			sl := args[0].(Slice)
			t := ex.trimSpace(st, Str{P: sl.P, Len: sl.Len}).(Str)
			if t.Len.IsConst() && t.Len.v == 0 {
				return one(st, Slice{Len: c.Int(0), Cap: c.Int(0)}), true
			}
			cp := c.Sub(sl.Cap, c.Int(t.P.Base-sl.P.Base))
			return one(st, Slice{P: t.P, Len: t.Len, Cap: cp}), true
		}
	case "strings":
		if fn.Name() == "TrimSpace" {
			return one(st, ex.trimSpace(st, args[0].(Str))), true
		}
		if fn.Name() == "Join" {
			if o, ok := ex.stringsJoin(st, args); ok {
				return o, true
			}
		}
	case "internal/stringslite", "internal/abi", "internal/race", "internal/msan", "internal/asan":
		switch fn.Name() {
		case "NoEscape", "Escape":
			return one(st, args[0]), true
		case "Read", "Write", "ReadRange", "WriteRange", "Acquire", "Release":
			if pkg != "internal/stringslite" && pkg != "internal/abi" {
				return one(st, nil), true
			}
		}
	}
	return nil, false
}

func (ex *Exec) opaqueStr(what string) Str { return ex.strConst("<" + what + ">") }

func (ex *Exec) errorType() types.Type {
	k := ex.prog.pkg("errors")
	if k == nil {
		unsup("package errors not loaded")
	}
	return types.NewPointer(k.Type("errorString").Type())
}

func (ex *Exec) newError(st *State, s string) Value { return ex.newErrorStr(st, ex.strConst(s)) }
func (ex *Exec) newErrorStr(st *State, s Str) Value {
	o := ex.alloc(st, 16, "error")
	ex.storeObj(st, o, 0, types.Typ[types.String], s)
	return Iface{T: ex.errorType(), V: Ptr{Obj: o.id}}
}

func (ex *Exec) bytealg(st *State, name string, args []Value) ([]Outcome, bool) {
	c := ex.c
	get := func(v Value) ([]*Term, bool) {
		switch s := v.(type) {
		case Str:
			n := ex.concrete(st, s.Len)
			return ex.strBytes(st, s, n), true
		case Slice:
			n := ex.concrete(st, s.Len)
			return ex.strBytes(st, Str{P: s.P}, n), true
		}
		return nil, false
	}
	switch name {
	case "IndexByte", "IndexByteString", "LastIndexByte", "LastIndexByteString":
		bs, ok := get(args[0])
		if !ok {
			return nil, false
		}
		b := args[1].(*Term)
		r := c.Int(-1)
		if strings.HasPrefix(name, "Last") {
			for i := 0; i < len(bs); i++ {
				r = c.Ite(c.Eq(bs[i], b), c.Int(int64(i)), r)
			}
		} else {
			for i := len(bs) - 1; i >= 0; i-- {
				r = c.Ite(c.Eq(bs[i], b), c.Int(int64(i)), r)
			}
		}
		return one(st, r), true
	case "Count", "CountString":
		bs, ok := get(args[0])
		if !ok {
			return nil, false
		}
		b := args[1].(*Term)
		r := c.Int(0)
		for i := range bs {
			r = c.Add(r, c.BoolBV(c.Eq(bs[i], b), 64))
		}
		return one(st, r), true
	case "Equal":
		a, _ := get(args[0])
		b, _ := get(args[1])
		if len(a) != len(b) {
			return one(st, c.False), true
		}
		r := c.True
		for i := range a {
			r = c.And(r, c.Eq(a[i], b[i]))
		}
		return one(st, r), true
	case "Compare", "CompareString":
		a, _ := get(args[0])
		b, _ := get(args[1])
		n := len(a)
		if len(b) < n {
			n = len(b)
		}
		r := c.Int(int64(cmpInt(len(a), len(b))))
		for i := n - 1; i >= 0; i-- {
			r = c.Ite(c.Ult(a[i], b[i]), c.Int(-1), c.Ite(c.Ult(b[i], a[i]), c.Int(1), r))
		}
		return one(st, r), true
	case "IndexString", "Index":
		a, _ := get(args[0])
		b, _ := get(args[1])
		r := c.Int(-1)
		for i := len(a) - len(b); i >= 0; i-- {
			m := c.True
			for k := range b {
				m = c.And(m, c.Eq(a[i+k], b[k]))
			}
			r = c.Ite(m, c.Int(int64(i)), r)
		}
		return one(st, r), true
	case "MakeNoZero":
		n := ex.concrete(st, args[0].(*Term))
		o := ex.alloc(st, n, "MakeNoZero")
		return one(st, Slice{P: Ptr{Obj: o.id}, Len: c.Int(n), Cap: c.Int(n)}), true
	}
	return nil, false
}

func cmpInt(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

// spaceAt is the width of a white space character at the start of bs, when
// it has that width: 1, 2 or 3 bytes.
func (ex *Exec) spaceAt(bs []*Term, w int) *Term {
	c := ex.c
	if len(bs) < w {
		return c.False
	}
	is := func(i int, vs ...uint64) *Term {
		r := c.False
		for _, v := range vs {
			r = c.Or(r, c.Eq(bs[i], c.Const(8, v)))
		}
		return r
	}
	switch w {
	case 1:
		return is(0, 9, 10, 11, 12, 13, ' ')
	case 2:
		return c.And(is(0, 0xc2), is(1, 0x85, 0xa0))
	}
	return c.Or(c.And(c.And(is(0, 0xe1), is(1, 0x9a)), is(2, 0x80)), c.Or(c.And(is(0, 0xe3), c.And(is(1, 0x80), is(2, 0x80))),
		c.And(is(0, 0xe2), c.Or(c.And(is(1, 0x80), is(2, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0xa8, 0xa9, 0xaf)), c.And(is(1, 0x81), is(2, 0x9f))))))
}

// trimSpace is strings.TrimSpace.
func (ex *Exec) trimSpace(st *State, s Str) Value {
	c := ex.c
	n := int(ex.concrete(st, s.Len))
	bs := ex.strBytes(st, s, int64(n))
	f := make([]*Term, n+4)
	for i := range f {
		f[i] = c.Int(0)
	}
	for i := n - 1; i >= 0; i-- {
		for w := 1; w <= 3; w++ {
			f[i] = c.Ite(ex.spaceAt(bs[i:], w), c.Add(c.Int(int64(w)), f[i+w]), f[i])
		}
	}
	l := int(ex.concrete(st, f[0]))
	// g[e]: what goes from the end of bs[l:e]
	g := make([]*Term, n+1)
	for e := 0; e <= n; e++ {
		g[e] = c.Int(0)
		for w := 1; w <= 3 && e-w >= l; w++ {
			g[e] = c.Ite(ex.spaceAt(bs[e-w:e], w), c.Add(c.Int(int64(w)), g[e-w]), g[e])
		}
	}
	r := int(ex.concrete(st, g[n]))
	p := s.P
	p.Base += int64(l)
	return Str{P: p, Len: c.Int(int64(n - l - r))}
}

func (ex *Exec) stringsJoin(st *State, args []Value) ([]Outcome, bool) {
	sl := args[0].(Slice)
	n := ex.concrete(st, sl.Len)
	sep := args[1].(Str)
	var ss []Str
	for i := int64(0); i < n; i++ {
		if i > 0 {
			ss = append(ss, sep)
		}
		p := sl.P
		p.Base += 16 * i
		v, msg := ex.load(st, p, types.Typ[types.String])
		if msg != "" {
			return nil, false
		}
		ss = append(ss, v.(Str))
	}
	if n == 0 {
		return one(st, Str{Len: ex.c.Int(0)}), true
	}
	return one(st, ex.concat(st, ss)), true
}

// strconvCall models number parsing and formatting: concrete operands are
// evaluated, symbolic text gives an unconstrained value or an error.
func (ex *Exec) strconvCall(st *State, name string, args []Value) ([]Outcome, bool) {
	c := ex.c
	switch name {
	case "ParseFloat", "ParseInt", "Atoi":
		s := args[0].(Str)
		var bits int
		if name == "ParseFloat" {
			bits = int(ex.concrete(st, args[1].(*Term)))
		}
		if g, ok := ex.concStr(st, s); ok {
			switch name {
			case "ParseFloat":
				f, err := strconv.ParseFloat(g, bits)
				return one(st, Tuple{c.F64(f), ex.errOf(st, err)}), true
			case "ParseInt":
				n, err := strconv.ParseInt(g, int(ex.concrete(st, args[1].(*Term))), int(ex.concrete(st, args[2].(*Term))))
				return one(st, Tuple{c.Int(n), ex.errOf(st, err)}), true
			case "Atoi":
				n, err := strconv.Atoi(g)
				return one(st, Tuple{c.Int(int64(n)), ex.errOf(st, err)}), true
			}
		}
		if name == "ParseFloat" {
			// uninterpreted in the text: same text, same value and same verdict
			n := ex.concrete(st, s.Len)
			bs := ex.strBytes(st, s, n)
			key := ex.textKey(bs)
			ok := ex.c.Eq(ex.c.mk(OpUF, 8, 0, fmt.Sprintf("pfok%d_%d", bits, n), key...), c.Const(8, 1))
			val := ex.c.mk(OpUF, 64, 0, fmt.Sprintf("pfval%d_%d", bits, n), key...)
			if n == 0 {
				ok = c.False
			}
			var outs []Outcome
			if ex.feasible(st, ok) {
				s2 := st
				if ex.feasible(st, c.Not(ok)) {
					s2 = ex.clone(st)
				}
				ex.addPC(s2, ok)
				outs = append(outs, Outcome{st: s2, ret: Tuple{val, Iface{}}})
				if s2 == st {
					return outs, true
				}
			}
			ex.addPC(st, c.Not(ok))
			// the value returned with an error may be 0 or +-Inf
			outs = append(outs, Outcome{st: st, ret: Tuple{c.F64(0), ex.newError(st, "strconv")}})
			return outs, true
		}
	case "FormatFloat":
		f := args[0].(*Term)
		if f.op == OpConst {
			return one(st, ex.strConst(strconv.FormatFloat(f64of(f), byte(ex.concrete(st, args[1].(*Term))), int(ex.concrete(st, args[2].(*Term))), int(ex.concrete(st, args[3].(*Term)))))), true
		}
		// some text determined by the operands: the length is chosen from a
		// small set, the bytes are uninterpreted
		fm, pr := ex.concrete(st, args[1].(*Term)), ex.concrete(st, args[2].(*Term))
		const n = 3
		var bs []*Term
		for i := 0; i < n; i++ {
			bs = append(bs, c.mk(OpUF, 8, 0, fmt.Sprintf("ff_%c_%d_%d", rune(fm), pr+1, i), f))
		}
		return one(st, Str{P: ex.newBytes(st, bs, "formatted"), Len: c.Int(n)}), true
	case "Itoa":
		if x := args[0].(*Term); x.op == OpConst {
			return one(st, ex.strConst(strconv.Itoa(int(sx(x.v, 64))))), true
		}
	}
	return nil, false
}

func (ex *Exec) textKey(bs []*Term) []*Term {
	var r []*Term
	for len(bs) > 0 {
		n := len(bs)
		if n > 8 {
			n = 8
		}
		t := bs[0]
		for i := 1; i < n; i++ {
			t = ex.c.Concat(bs[i], t)
		}
		r = append(r, t)
		bs = bs[n:]
	}
	return r
}

func (ex *Exec) errOf(st *State, err error) Value {
	if err == nil {
		return Iface{}
	}
	return ex.newError(st, err.Error())
}

func (ex *Exec) modelCall(st *State, name string, args []Value) []Outcome {
	unsup("model %s", name)
	return nil
}

// builtin executes a Go builtin; returns false when the item was replaced.
func (fr *frame) builtin(it *item, x *ssa.Call, name string, args []Value) bool {
	ex, c := fr.ex, fr.ex.c
	st := it.st
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			fr.set(it, x, v.Len)
		case Str:
			fr.set(it, x, v.Len)
		case MapV:
			n := 0
			if v.ID != 0 {
				n = len(ex.mapObj(st, v).keys)
			}
			fr.set(it, x, c.Int(int64(n)))
		case Ptr:
			fr.set(it, x, c.Int(under(under(x.Call.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len()))
		case ArrayV:
			fr.set(it, x, c.Int(int64(len(v.E))))
		default:
			unsup("len of %T", v)
		}
		return true
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			fr.set(it, x, v.Cap)
		default:
			unsup("cap of %T", v)
		}
		return true
	case "real":
		fr.set(it, x, args[0].(Complex).Re)
		return true
	case "imag":
		fr.set(it, x, args[0].(Complex).Im)
		return true
	case "complex":
		fr.set(it, x, Complex{args[0].(*Term), args[1].(*Term)})
		return true
	case "append":
		v, msg := ex.appendV(st, x, args)
		if msg != "" {
			fr.panicOut(it, msg)
			return false
		}
		fr.set(it, x, v)
		return true
	case "copy":
		d := args[0].(Slice)
		var sp Ptr
		var sl *Term
		switch s := args[1].(type) {
		case Slice:
			sp, sl = s.P, s.Len
		case Str:
			sp, sl = s.P, s.Len
		}
		n := ex.concrete(st, d.Len)
		if m := ex.concrete(st, sl); m < n {
			n = m
		}
		es := sizeof(under(x.Call.Args[0].Type()).(*types.Slice).Elem())
		if msg := ex.memmove(st, d.P, sp, n*es); msg != "" {
			fr.panicOut(it, msg)
			return false
		}
		fr.set(it, x, c.Int(n))
		return true
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			p, q := r.(*Term), a.(*Term)
			t := x.Type()
			var lt *Term
			switch {
			case isFloat(t):
				// NaN propagates; -0 < +0
				nan := c.Or(c.FIsNaN(p), c.FIsNaN(q))
				var sel *Term
				if name == "min" {
					sel = c.Or(c.FLt(p, q), c.And(c.FEq(p, q), c.Eq(c.Extract(p, p.w-1, 1), c.Const(1, 1))))
				} else {
					sel = c.Or(c.FLt(q, p), c.And(c.FEq(p, q), c.Eq(c.Extract(p, p.w-1, 1), c.Const(1, 0))))
				}
				r = c.Ite(nan, c.Ite(c.FIsNaN(p), p, q), c.Ite(sel, p, q))
				continue
			case isSigned(t):
				lt = c.Slt(p, q)
			default:
				lt = c.Ult(p, q)
			}
			if name == "min" {
				r = c.Ite(lt, p, q)
			} else {
				r = c.Ite(lt, q, p)
			}
		}
		fr.set(it, x, r)
		return true
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.IsNil() {
			fr.panicOut(it, "nil pointer method call")
			return false
		}
		fr.set(it, x, args[0])
		return true
	case "print", "println":
		return true
	case "recover":
		fr.set(it, x, Iface{})
		return true
	case "delete":
		m := args[0].(MapV)
		if m.ID == 0 {
			return true
		}
		o := ex.mapObj(st, m)
		n := &MapObj{typ: o.typ}
		for i := range o.keys {
			e, ok := ex.equal(st, o.keys[i], args[1], o.typ.Key())
			if !ok || (!e.IsTrue() && !e.IsFalse()) {
				unsup("symbolic map delete")
			}
			if e.IsFalse() {
				n.keys = append(n.keys, o.keys[i])
				n.vals = append(n.vals, o.vals[i])
			}
		}
		if st.maps == nil {
			st.maps = map[int]*MapObj{}
		}
		st.maps[m.ID] = n
		return true
	case "clear":
		if s, ok := args[0].(Slice); ok {
			n := ex.concrete(st, s.Len)
			et := under(x.Call.Args[0].Type()).(*types.Slice).Elem()
			z := ex.zero(et)
			for i := int64(0); i < n; i++ {
				p := s.P
				p.Base += i * sizeof(et)
				if msg := ex.store(st, p, et, z); msg != "" {
					fr.panicOut(it, msg)
					return false
				}
			}
			return true
		}
	case "String": // unsafe.String
		p, _ := args[0].(Ptr)
		fr.set(it, x, Str{P: p, Len: ex.toInt64(args[1].(*Term), x.Call.Args[1].Type())})
		return true
	case "StringData":
		fr.set(it, x, args[0].(Str).P)
		return true
	case "SliceData":
		fr.set(it, x, args[0].(Slice).P)
		return true
	case "Slice":
		n := ex.toInt64(args[1].(*Term), x.Call.Args[1].Type())
		fr.set(it, x, Slice{args[0].(Ptr), n, n})
		return true
	case "Add":
		p := args[0].(Ptr)
		p.Base += ex.concrete(st, ex.toInt64(args[1].(*Term), x.Call.Args[1].Type()))
		fr.set(it, x, p)
		return true
	}
	unsup("builtin %s", name)
	return false
}

// memmove copies n bytes cell-wise.
func (ex *Exec) memmove(st *State, d, s Ptr, n int64) string {
	if n == 0 {
		return ""
	}
	if d.Idx != nil || s.Idx != nil {
		unsup("copy through a symbolic pointer")
	}
	so := ex.obj(st, s.Obj)
	if s.Base < 0 || s.Base+n > so.size {
		return "copy reads outside " + so.name
	}
	do := ex.wobj(st, d.Obj)
	if d.Base < 0 || d.Base+n > do.size {
		return "copy writes outside " + do.name
	}
	if do.ro {
		return "write to read-only " + do.name
	}
	type cc struct {
		off int64
		sz  uint8
		v   Value
	}
	var cells []cc
	for i := int64(0); i < n; {
		c := so.at(s.Base + i)
		if c == nil || (c.sz == 0 && c.back == 0) {
			cells = append(cells, cc{i, 1, ex.c.Const(8, 0)})
			i++
			continue
		}
		if c.back == 0 && i+int64(c.sz) <= n {
			cells = append(cells, cc{i, c.sz, c.v})
			i += int64(c.sz)
			continue
		}
		cells = append(cells, cc{i, 1, ex.byteAt(so, s.Base+i)})
		i++
	}
	for _, c := range cells {
		if c.sz == 1 {
			if t, ok := c.v.(*Term); ok && t.op == OpConst && t.v == 0 {
				// keep untouched memory untouched
				k := do.at(d.Base + c.off)
				if k == nil || (k.sz == 0 && k.back == 0) {
					continue
				}
			}
		}
		ex.storeRaw(st, do, d.Base+c.off, int64(c.sz), c.v)
	}
	return ""
}

func (ex *Exec) appendV(st *State, x *ssa.Call, args []Value) (Value, string) {
	c := ex.c
	s := args[0].(Slice)
	et := under(x.Type()).(*types.Slice).Elem()
	es := sizeof(et)
	var ap Ptr
	var al *Term
	switch a := args[1].(type) {
	case Slice:
		ap, al = a.P, a.Len
	case Str:
		ap, al = a.P, a.Len
	default:
		unsup("append of %T", a)
	}
	n, k := ex.concrete(st, s.Len), ex.concrete(st, al)
	cp := ex.concrete(st, s.Cap)
	if k == 0 {
		return Slice{s.P, c.Int(n), c.Int(cp)}, ""
	}
	p := s.P
	if n+k > cp {
		nc := cp
		dbl := nc + nc
		if n+k > dbl {
			nc = n + k
		} else if cp < 256 {
			nc = dbl
		} else {
			for nc < n+k {
				nc += (nc + 3*256) >> 2
			}
		}
		o := ex.alloc(st, nc*es, "append")
		np := Ptr{Obj: o.id}
		if msg := ex.memmove(st, np, p, n*es); msg != "" {
			return nil, "append: " + msg
		}
		p, cp = np, nc
	}
	d := p
	d.Base += n * es
	if msg := ex.memmove(st, d, ap, k*es); msg != "" {
		return nil, "append: " + msg
	}
	return Slice{p, c.Int(n + k), c.Int(cp)}, ""
}

var _ = math.Pi
