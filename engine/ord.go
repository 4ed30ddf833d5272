package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"strings"
	"time"
)

// Order abstraction: a float is a pair (isNaN, key) with key a real number
// whose order is the float order; ±Inf are the ends of the key range and both
// zeros have key 0. Anything that is not a comparison, choice, negation or
// absolute value is replaced by an unconstrained value, so "unsat" carries
// over to the real code and "sat" means nothing.
type ordEnc struct {
	sb    strings.Builder
	bools map[int32]string
	keys  map[int32][2]string
}

func isOrdOp(o Op) bool { return o == OpFLt || o == OpFLe || o == OpFEq || o == OpFIsNaN }

// orderGoal reports whether the order abstraction is worth trying on t.
func orderGoal(t *Term) bool {
	seen := map[int32]bool{}
	st := []*Term{t}
	cmp := 0
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x.id] {
			continue
		}
		seen[x.id] = true
		switch x.op {
		case OpFLt, OpFLe, OpFEq:
			cmp++
		case OpFAdd, OpFMul, OpFDiv, OpFSqrt, OpFCvt, OpFToSI, OpFToSIR, OpSIToF, OpUIToF, OpFRound:
			return false
		}
		st = append(st, x.args...)
	}
	return cmp > 2
}

var ordMax = "1" + strings.Repeat("0", 330) + ".0"

func ordConst(w uint8, v uint64) (string, string) {
	var f float64
	if w == 32 {
		f = float64(math.Float32frombits(uint32(v)))
	} else {
		f = math.Float64frombits(v)
	}
	if f != f {
		return "true", "0.0"
	}
	if math.IsInf(f, 1) {
		return "false", ordMax
	}
	if math.IsInf(f, -1) {
		return "false", "(- " + ordMax + ")"
	}
	return "false", ratStr(new(big.Rat).SetFloat64(f))
}

func ratStr(r *big.Rat) string {
	n, d := r.Num(), r.Denom()
	s := new(big.Int).Abs(n).String() + ".0"
	if d.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + s + " " + d.String() + ".0)"
	}
	if n.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func (e *ordEnc) fresh(t *Term) {
	if t.w == 0 {
		n := fmt.Sprintf("b%d", t.id)
		fmt.Fprintf(&e.sb, "(declare-const %s Bool)\n", n)
		e.bools[t.id] = n
		return
	}
	n := fmt.Sprintf("n%d", t.id)
	k := fmt.Sprintf("k%d", t.id)
	fmt.Fprintf(&e.sb, "(declare-const %s Bool)\n(declare-const %s Real)\n(assert (and (<= %s %s) (>= %s (- %s))))\n", n, k, k, ordMax, k, ordMax)
	e.keys[t.id] = [2]string{n, k}
}

func (e *ordEnc) boolOf(t *Term) string {
	if t.op == OpConst {
		return constStr(0, t.v)
	}
	return e.bools[t.id]
}

func (e *ordEnc) keyOf(t *Term) (string, string) {
	if t.op == OpConst {
		return ordConst(t.w, t.v)
	}
	p := e.keys[t.id]
	return p[0], p[1]
}

func fsize(w uint8) bool { return w == 32 || w == 64 }

func (e *ordEnc) define(t *Term) {
	defB := func(s string) {
		n := fmt.Sprintf("b%d", t.id)
		fmt.Fprintf(&e.sb, "(define-fun %s () Bool %s)\n", n, s)
		e.bools[t.id] = n
	}
	defK := func(nan, key string) {
		n, k := fmt.Sprintf("n%d", t.id), fmt.Sprintf("k%d", t.id)
		fmt.Fprintf(&e.sb, "(define-fun %s () Bool %s)\n(define-fun %s () Real %s)\n", n, nan, k, key)
		e.keys[t.id] = [2]string{n, k}
	}
	b := func(i int) string { return e.boolOf(t.args[i]) }
	k := func(i int) (string, string) { return e.keyOf(t.args[i]) }
	if t.w == 0 {
		switch t.op {
		case OpNot:
			defB("(not " + b(0) + ")")
			return
		case OpAnd:
			defB("(and " + b(0) + " " + b(1) + ")")
			return
		case OpOr:
			defB("(or " + b(0) + " " + b(1) + ")")
			return
		case OpIte:
			defB("(ite " + b(0) + " " + b(1) + " " + b(2) + ")")
			return
		case OpEq:
			if t.args[0].w == 0 {
				defB("(= " + b(0) + " " + b(1) + ")")
				return
			}
		case OpFLt, OpFLe, OpFEq:
			an, ak := k(0)
			bn, bk := k(1)
			op := map[Op]string{OpFLt: "<", OpFLe: "<=", OpFEq: "="}[t.op]
			defB(fmt.Sprintf("(and (not %s) (not %s) (%s %s %s))", an, bn, op, ak, bk))
			return
		case OpFIsNaN:
			an, _ := k(0)
			defB(an)
			return
		}
		e.fresh(t)
		return
	}
	if fsize(t.w) {
		switch t.op {
		case OpIte:
			an, ak := k(1)
			bn, bk := k(2)
			defK(fmt.Sprintf("(ite %s %s %s)", b(0), an, bn), fmt.Sprintf("(ite %s %s %s)", b(0), ak, bk))
			return
		case OpFNeg:
			an, ak := k(0)
			defK(an, "(- "+ak+")")
			return
		case OpFAbs:
			an, ak := k(0)
			defK(an, fmt.Sprintf("(ite (< %s 0.0) (- %s) %s)", ak, ak, ak))
			return
		}
	}
	e.fresh(t)
}

// solveOrd tries to refute a goal in the order abstraction.
func solveOrd(t *Term, timeout time.Duration) bool {
	e := &ordEnc{bools: map[int32]string{}, keys: map[int32][2]string{}}
	done := map[int32]bool{}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OpConst || done[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		// do not descend into what will be abstracted
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			st = append(st, fr{a, 0})
			continue
		}
		e.define(f.t)
		done[f.t.id] = true
		st = st[:len(st)-1]
	}
	script := e.sb.String() + "(assert " + e.boolOf(t) + ")\n(check-sat)\n"
	if d := os.Getenv("VDUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/ord%d.smt2", d, time.Now().UnixNano()), []byte(script), 0644)
	}
	return portfolio(script, ModeFP, timeout).Res == "unsat"
}
