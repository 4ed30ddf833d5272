package main

import (
	"strconv"
	"strings"
)

// jump and call targets may be immediate or (unsupported) indirect.

func (m *machine) step(s *mstate, in *insn) bool {
	ex, c := m.ex, m.ex.c
	ex.insns[in.mn]++
	if in.ext != "" && ex.featObj != nil {
		m.needExt(s, in.ext)
	}
	o := in.ops
	mn := in.mn
	next := func() bool { s.pc = in.next; return true }
	switch mn {
	case "nop", "endbr64", "pause", "lfence", "mfence", "sfence", "prefetcht0", "prefetchnta", "prefetcht1", "prefetcht2", "vzeroupper", "cs nopw", "data16 cs":
		if mn == "vzeroupper" {
			for i := range s.x {
				for j := 4; j < 8; j++ {
					s.x[i][j] = c.Const(32, 0)
				}
			}
		}
		return next()
	case "ret":
		m.doRet(s)
		return false
	case "int3", "ud2", "hlt":
		m.fault(s, "%s executed", mn)
		return false
	case "jmp":
		if in.tgt == 0 {
			unsup("indirect jump: %s", in.text)
		}
		return m.enter(s, in.tgt)
	case "call":
		if in.tgt == 0 {
			unsup("indirect call: %s", in.text)
		}
		if y := m.b.symAt(in.tgt); y != nil && y.addr == in.tgt {
			switch {
			case strings.HasSuffix(y.name, ".vCPUID.abi0"):
				m.cpuid(s)
				return next()
			case strings.HasSuffix(y.name, ".vXGETBV.abi0"):
				m.xgetbv(s)
				return next()
			}
		}
		sp := uint64(ex.concrete(s.st, s.r[4])) - 8
		m.storeMem(s, sp, 8, c.Const(64, in.next))
		s.r[4] = c.Const(64, sp)
		return m.enter(s, in.tgt)
	case "cpuid":
		m.cpuid(s)
		return next()
	case "xgetbv":
		m.xgetbv(s)
		return next()
	case "push":
		v := m.getW(s, &o[0], 8)
		sp := uint64(ex.concrete(s.st, s.r[4])) - 8
		m.storeMem(s, sp, 8, v)
		s.r[4] = c.Const(64, sp)
		return next()
	case "pop":
		sp := uint64(ex.concrete(s.st, s.r[4]))
		v := m.loadMem(s, sp, 8)
		s.r[4] = c.Const(64, sp+8)
		m.set(s, &o[0], v)
		return next()
	case "mov", "movabs":
		w := o[0].w
		if o[0].kind == 'm' && w == 0 {
			w = o[1].w
		}
		m.set(s, &o[0], m.getW(s, &o[1], w))
		return next()
	case "movzx":
		m.set(s, &o[0], c.ZExt(m.get(s, &o[1]), uint8(o[0].w*8)))
		return next()
	case "movsx", "movsxd":
		m.set(s, &o[0], c.SExt(m.get(s, &o[1]), uint8(o[0].w*8)))
		return next()
	case "cdqe":
		s.r[0] = c.SExt(c.Extract(m.reg(s, 0), 0, 32), 64)
		return next()
	case "cqo":
		s.r[2] = c.Ashr(m.reg(s, 0), c.Const(64, 63))
		return next()
	case "lea":
		t := c.Const(64, uint64(o[1].disp))
		if o[1].base >= 0 && o[1].base < 16 {
			t = c.Add(t, m.reg(s, o[1].base))
		}
		if o[1].index >= 0 {
			t = c.Add(t, c.Mul(m.reg(s, o[1].index), c.Const(64, uint64(o[1].scale))))
		}
		m.set(s, &o[0], c.Extract(t, 0, uint8(o[0].w*8)))
		return next()
	case "xchg":
		a, b := m.get(s, &o[0]), m.get(s, &o[1])
		m.set(s, &o[0], b)
		m.set(s, &o[1], a)
		return next()
	case "bswap":
		v := m.get(s, &o[0])
		r := c.Extract(v, 0, 8)
		for i := uint8(8); i < v.w; i += 8 {
			r = c.Concat(r, c.Extract(v, i, 8))
		}
		m.set(s, &o[0], r)
		return next()
	case "add", "adc":
		a, b := m.get(s, &o[0]), m.getW(s, &o[1], o[0].w)
		r := c.Add(a, b)
		if mn == "adc" {
			r = c.Add(r, c.BoolBV(s.f.cf, a.w))
			unsupIf(!s.f.cf.IsConst(), "adc")
		}
		m.szp(s, r)
		s.f.cf = c.Ult(r, a)
		s.f.of = c.And(c.Eq(c.Slt(a, c.Const(a.w, 0)), c.Slt(b, c.Const(a.w, 0))), c.Not(c.Eq(c.Slt(a, c.Const(a.w, 0)), s.f.sf)))
		m.set(s, &o[0], r)
		return next()
	case "sub", "cmp":
		a, b := m.get(s, &o[0]), m.getW(s, &o[1], o[0].w)
		r := c.Sub(a, b)
		m.subFlags(s, a, b, r)
		if mn == "sub" {
			m.set(s, &o[0], r)
		}
		return next()
	case "inc", "dec":
		a := m.get(s, &o[0])
		d := c.Const(a.w, 1)
		if mn == "dec" {
			d = c.Const(a.w, ^uint64(0))
		}
		r := c.Add(a, d)
		cf := s.f.cf
		m.szp(s, r)
		s.f.cf = cf
		if mn == "inc" {
			s.f.of = c.Eq(a, c.Const(a.w, mask(a.w-1)))
		} else {
			s.f.of = c.Eq(a, c.Const(a.w, uint64(1)<<(a.w-1)))
		}
		m.set(s, &o[0], r)
		return next()
	case "neg":
		a := m.get(s, &o[0])
		r := c.Neg(a)
		m.subFlags(s, c.Const(a.w, 0), a, r)
		m.set(s, &o[0], r)
		return next()
	case "not":
		m.set(s, &o[0], c.BNot(m.get(s, &o[0])))
		return next()
	case "and", "or", "xor", "test":
		a, b := m.get(s, &o[0]), m.getW(s, &o[1], o[0].w)
		if o[0].kind == 'm' && o[0].w == 0 {
			unsup("%s", in.text)
		}
		var r *Term
		switch mn {
		case "or":
			r = c.BOr(a, b)
		case "xor":
			r = c.BXor(a, b)
		default:
			r = c.BAnd(a, b)
		}
		m.szp(s, r)
		s.f.cf, s.f.of = c.False, c.False
		if mn != "test" {
			m.set(s, &o[0], r)
		}
		return next()
	case "shl", "shr", "sar", "sal":
		a := m.get(s, &o[0])
		n := c.Const(8, 1)
		if len(o) > 1 {
			n = m.getW(s, &o[1], 1)
		}
		mk := uint64(31)
		if a.w == 64 {
			mk = 63
		}
		if n.op != OpConst {
			n = c.Const(8, uint64(ex.concrete(s.st, n)))
		}
		k := n.v & mk
		if k == 0 {
			return next()
		}
		n = c.Const(a.w, k)
		var r *Term
		switch mn {
		case "shr":
			r = c.Lshr(a, n)
			s.f.cf = c.Eq(c.Extract(a, uint8(k-1), 1), c.Const(1, 1))
		case "sar":
			r = c.Ashr(a, n)
			s.f.cf = c.Eq(c.Extract(a, uint8(k-1), 1), c.Const(1, 1))
		default:
			r = c.Shl(a, n)
			if k <= uint64(a.w) {
				s.f.cf = c.Eq(c.Extract(a, a.w-uint8(k), 1), c.Const(1, 1))
			}
		}
		m.szp(s, r)
		s.f.of = c.False
		m.set(s, &o[0], r)
		return next()
	case "imul":
		switch len(o) {
		case 2:
			m.set(s, &o[0], c.Mul(m.get(s, &o[0]), m.get(s, &o[1])))
		case 3:
			m.set(s, &o[0], c.Mul(m.get(s, &o[1]), m.getW(s, &o[2], o[0].w)))
		default:
			unsup("%s", in.text)
		}
		return next()
	case "bt":
		a, b := m.get(s, &o[0]), m.getW(s, &o[1], o[0].w)
		if b.op != OpConst || o[0].kind != 'r' {
			unsup("%s", in.text)
		}
		s.f.cf = c.Eq(c.Extract(a, uint8(b.v)&(a.w-1), 1), c.Const(1, 1))
		return next()
	case "cld":
		return next()
	}
	if mn[0] == 'j' {
		p := m.cond(s, mn[1:])
		return m.branch(s, p, in.tgt, in.next)
	}
	if strings.HasPrefix(mn, "set") {
		m.set(s, &o[0], c.BoolBV(m.cond(s, mn[3:]), 8))
		return next()
	}
	if strings.HasPrefix(mn, "cmov") {
		m.set(s, &o[0], c.Ite(m.cond(s, mn[4:]), m.get(s, &o[1]), m.get(s, &o[0])))
		return next()
	}
	m.vecStep(s, in)
	return next()
}

func unsupIf(b bool, s string) {
	if b {
		unsup("%s", s)
	}
}

func (m *machine) branch(s *mstate, p *Term, yes, no uint64) bool {
	ex := m.ex
	if p.IsTrue() {
		return m.jump(s, yes)
	}
	if p.IsFalse() {
		s.pc = no
		return true
	}
	np := ex.c.Not(p)
	y, n := ex.feasible(s.st, p), ex.feasible(s.st, np)
	if y && !n {
		return m.jump(s, yes)
	}
	if n && !y {
		s.pc = no
		return true
	}
	t := m.clone(s)
	ex.addPC(t.st, p)
	m.jump(t, yes)
	m.push(t)
	ex.addPC(s.st, np)
	s.pc = no
	m.push(s)
	return false
}

// needed so that states can be merged at join points: every jump target of
// a forked state is queued rather than run on.

func (m *machine) cpuid(s *mstate) {
	ex, c := m.ex, m.ex.c
	leaf := uint32(ex.concrete(s.st, c.Extract(m.reg(s, 0), 0, 32)))
	sub := uint32(ex.concrete(s.st, c.Extract(m.reg(s, 1), 0, 32)))
	for i, r := range []int{0, 3, 1, 2} {
		s.r[r] = c.ZExt(c.Var(cpuidName(leaf, sub, i), 32, false), 64)
	}
}

func cpuidName(leaf, sub uint32, i int) string {
	return "cpuid." + hex(uint64(leaf)) + "." + hex(uint64(sub)) + "." + []string{"eax", "ebx", "ecx", "edx"}[i]
}

func (m *machine) xgetbv(s *mstate) {
	c := m.ex.c
	s.r[0] = c.ZExt(c.Var("xgetbv.eax", 32, false), 64)
	s.r[2] = c.ZExt(c.Var("xgetbv.edx", 32, false), 64)
}

// ---- vector instructions ----

type lanes = []*Term

func (m *machine) split(v lanes, w uint8) lanes {
	c := m.ex.c
	var r lanes
	switch {
	case w == 32:
		return v
	case w < 32:
		for _, t := range v {
			for i := uint8(0); i < 32; i += w {
				r = append(r, c.Extract(t, i, w))
			}
		}
	default:
		for i := 0; i+1 < len(v); i += 2 {
			r = append(r, c.Concat(v[i+1], v[i]))
		}
	}
	return r
}

func (m *machine) join(v lanes, w uint8) lanes {
	c := m.ex.c
	var r lanes
	switch {
	case w == 32:
		return v
	case w < 32:
		k := int(32 / w)
		for i := 0; i < len(v); i += k {
			t := v[i]
			for j := 1; j < k; j++ {
				t = c.Concat(v[i+j], t)
			}
			r = append(r, t)
		}
	default:
		for _, t := range v {
			r = append(r, c.Extract(t, 0, 32), c.Extract(t, 32, 32))
		}
	}
	return r
}

func (m *machine) fbin(op string, a, b *Term) *Term {
	c := m.ex.c
	switch op {
	case "add":
		return c.FAdd(a, b)
	case "sub":
		return c.FSub(a, b)
	case "mul":
		return c.FMul(a, b)
	case "div":
		return c.FDiv(a, b)
	case "min":
		return c.Ite(c.FLt(a, b), a, b)
	case "max":
		return c.Ite(c.FLt(b, a), a, b)
	case "sqrt":
		return c.FSqrt(b)
	}
	unsup("%s", op)
	return nil
}

func (m *machine) sat(t *Term, w uint8, lo, hi int64) *Term {
	c := m.ex.c
	l, h := c.Const(t.w, uint64(lo)), c.Const(t.w, uint64(hi))
	return c.Extract(c.Ite(c.Slt(h, t), h, c.Ite(c.Slt(t, l), l, t)), 0, w)
}

func (m *machine) vecStep(s *mstate, in *insn) {
	c := m.ex.c
	o := in.ops
	mn := in.mn
	vex := false
	if mn[0] == 'v' {
		vex = true
		mn = mn[1:]
	}
	if len(o) == 0 {
		unsup("instruction %s", in.text)
	}
	nl := 4 // lanes of the operation
	for i := range o {
		if o[i].w == 32 {
			nl = 8
		}
	}
	dst := &o[0]
	a, b := &o[0], &o[len(o)-1] // two-operand form
	rest := o[1:]
	if vex && len(o) >= 3 && o[1].kind == 'x' && o[2].kind != 'i' {
		a, b = &o[1], &o[2]
		rest = o[2:]
	} else if len(o) >= 2 {
		b = &o[1]
	}
	set := func(v lanes) { m.setVec(s, dst, v, vex) }
	// legacy SSE arithmetic needs aligned memory
	vecB := func() lanes {
		if !vex {
			m.aligned(s, b, 16)
		}
		return m.vec(s, b, nl)
	}
	vecA := func() lanes { return m.vec(s, a, nl) }
	zero := c.Const(32, 0)
	switch mn {
	case "movups", "movupd", "movdqu", "lddqu":
		m.setVec(s, dst, m.vec(s, &o[1], nl), vex)
		return
	case "movaps", "movapd", "movdqa", "movntps", "movntdq", "movntpd", "movntdqa":
		m.aligned(s, &o[0], uint64(nl*4))
		m.aligned(s, &o[1], uint64(nl*4))
		m.setVec(s, dst, m.vec(s, &o[1], nl), vex)
		return
	case "movss", "movd":
		if dst.kind == 'm' {
			m.storeMem(s, m.ea(s, dst), 4, m.getW(s, &o[1], 4))
			return
		}
		if dst.kind == 'r' {
			m.setR(s, dst, m.lane(s, o[1].reg, 0))
			return
		}
		v := m.getW(s, &o[len(o)-1], 4)
		if mn == "movss" && o[len(o)-1].kind == 'x' {
			w := m.vec(s, a, 4)
			w[0] = v
			m.setVec(s, dst, w, vex)
			return
		}
		m.setVec(s, dst, lanes{v, zero, zero, zero}, vex)
		return
	case "movsd", "movq":
		if dst.kind == 'm' {
			m.storeMem(s, m.ea(s, dst), 8, m.getW(s, &o[1], 8))
			return
		}
		if dst.kind == 'r' {
			m.setR(s, dst, m.getW(s, &o[1], 8))
			return
		}
		v := m.getW(s, &o[len(o)-1], 8)
		lo, hi := c.Extract(v, 0, 32), c.Extract(v, 32, 32)
		if mn == "movsd" && o[len(o)-1].kind == 'x' {
			w := m.vec(s, a, 4)
			w[0], w[1] = lo, hi
			m.setVec(s, dst, w, vex)
			return
		}
		m.setVec(s, dst, lanes{lo, hi, zero, zero}, vex)
		return
	case "movlps", "movlpd", "movhps", "movhpd":
		k := 0
		if mn[3] == 'h' {
			k = 2
		}
		if dst.kind == 'm' {
			ad := m.ea(s, dst)
			m.storeMem(s, ad, 8, c.Concat(m.lane(s, o[1].reg, k+1), m.lane(s, o[1].reg, k)))
			return
		}
		v := m.getW(s, b, 8)
		w := m.vec(s, a, 4)
		w[k], w[k+1] = c.Extract(v, 0, 32), c.Extract(v, 32, 32)
		m.setVec(s, dst, w, vex)
		return
	case "movhlps":
		x, y := m.vec(s, a, 4), m.vec(s, b, 4)
		m.setVec(s, dst, lanes{y[2], y[3], x[2], x[3]}, vex)
		return
	case "movlhps":
		x, y := m.vec(s, a, 4), m.vec(s, b, 4)
		m.setVec(s, dst, lanes{x[0], x[1], y[0], y[1]}, vex)
		return
	case "movmskps":
		v := m.vec(s, &o[1], 4)
		r := c.Const(8, 0)
		for i := 3; i >= 0; i-- {
			t := c.ZExt(c.Extract(v[i], 31, 1), 8)
			r = c.BOr(c.Shl(r, c.Const(8, 1)), t)
		}
		m.setR(s, dst, c.ZExt(r, uint8(dst.w*8)))
		return
	case "broadcastss", "pbroadcastd":
		v := m.getW(s, &o[1], 4)
		n := dst.w / 4
		w := make(lanes, n)
		for i := range w {
			w[i] = v
		}
		set(w)
		return
	case "broadcastsd", "pbroadcastq":
		v := m.getW(s, &o[1], 8)
		n := dst.w / 4
		w := make(lanes, n)
		for i := range w {
			w[i] = c.Extract(v, uint8(32*(i&1)), 32)
		}
		set(w)
		return
	case "extractf128", "extracti128":
		k := int(o[2].imm&1) * 4
		v := m.vec(s, &o[1], 8)[k : k+4]
		m.setVec(s, dst, append(lanes{}, v...), vex)
		return
	case "insertf128", "inserti128":
		k := int(o[3].imm&1) * 4
		v := m.vec(s, &o[1], 8)
		copy(v[k:k+4], m.vec(s, &o[2], 4))
		m.setVec(s, dst, v, vex)
		return
	case "perm2f128", "perm2i128":
		x, y := m.vec(s, &o[1], 8), m.vec(s, &o[2], 8)
		all := append(append(lanes{}, x...), y...)
		var r lanes
		for h := uint(0); h < 2; h++ {
			sel := o[3].imm >> (4 * h)
			if sel&8 != 0 {
				r = append(r, zero, zero, zero, zero)
			} else {
				r = append(r, all[(sel&3)*4:(sel&3)*4+4]...)
			}
		}
		m.setVec(s, dst, r, vex)
		return
	case "pshufd", "permilps":
		if o[len(o)-1].kind != 'i' {
			unsup("%s", in.text)
		}
		if !vex {
			m.aligned(s, &o[1], 16)
		}
		v := m.vec(s, &o[1], nl)
		im := o[len(o)-1].imm
		w := make(lanes, nl)
		for i := range w {
			w[i] = v[(i&^3)+int(im>>(2*uint(i&3)))&3]
		}
		set(w)
		return
	case "shufps":
		x, y := vecA(), vecB()
		im := rest[len(rest)-1].imm
		w := make(lanes, nl)
		for i := range w {
			src := x
			if i&3 >= 2 {
				src = y
			}
			w[i] = src[(i&^3)+int(im>>(2*uint(i&3)))&3]
		}
		set(w)
		return
	case "shufpd":
		x, y := m.split(vecA(), 64), m.split(vecB(), 64)
		im := rest[len(rest)-1].imm
		w := make(lanes, nl/2)
		for i := range w {
			src := x
			if i&1 == 1 {
				src = y
			}
			w[i] = src[(i&^1)+int(im>>uint(i))&1]
		}
		set(m.join(w, 64))
		return
	case "pshuflw", "pshufhw":
		v := m.split(m.vec(s, &o[1], nl), 16)
		im := o[len(o)-1].imm
		w := append(lanes{}, v...)
		for h := 0; h < len(v); h += 8 {
			k := h
			if mn == "pshufhw" {
				k += 4
			}
			for i := 0; i < 4; i++ {
				w[k+i] = v[k+int(im>>(2*uint(i)))&3]
			}
		}
		set(m.join(w, 16))
		return
	case "unpcklps", "punpckldq", "unpckhps", "punpckhdq", "punpcklbw", "punpckhbw", "punpcklwd", "punpckhwd", "punpcklqdq", "punpckhqdq", "unpcklpd", "unpckhpd":
		w := uint8(32)
		switch {
		case strings.HasSuffix(mn, "qdq") || strings.HasSuffix(mn, "pd"):
			w = 64
		case strings.HasSuffix(mn, "bw"):
			w = 8
		case strings.HasSuffix(mn, "wd"):
			w = 16
		}
		hi := strings.Contains(mn, "ckh")
		x, y := m.split(vecA(), w), m.split(vecB(), w)
		per := 128 / int(w)
		var r lanes
		for h := 0; h < len(x); h += per {
			st := h
			if hi {
				st += per / 2
			}
			for i := 0; i < per/2; i++ {
				r = append(r, x[st+i], y[st+i])
			}
		}
		set(m.join(r, w))
		return
	case "packssdw", "packsswb", "packuswb", "packusdw":
		w := uint8(32)
		if strings.HasSuffix(mn, "wb") {
			w = 16
		}
		x, y := m.split(vecA(), w), m.split(vecB(), w)
		lo, hi := int64(-1)<<(w/2-1), int64(1)<<(w/2-1)-1
		if strings.HasPrefix(mn, "packus") {
			lo, hi = 0, int64(1)<<(w/2)-1
		}
		per := 128 / int(w)
		var r lanes
		for h := 0; h < len(x); h += per {
			for i := 0; i < per; i++ {
				r = append(r, m.sat(x[h+i], w/2, lo, hi))
			}
			for i := 0; i < per; i++ {
				r = append(r, m.sat(y[h+i], w/2, lo, hi))
			}
		}
		set(m.join(r, w/2))
		return
	case "pmovsxbw", "pmovsxbd", "pmovsxwd", "pmovsxbq", "pmovsxdq", "pmovsxwq", "pmovzxbw", "pmovzxbd", "pmovzxwd", "pmovzxdq", "pmovzxbq", "pmovzxwq":
		wd := map[byte]uint8{'b': 8, 'w': 16, 'd': 32, 'q': 64}
		from, to := wd[mn[6]], wd[mn[7]]
		n := dst.w * 8 / int(to)
		bytes := n * int(from) / 8
		var src lanes
		if b.kind == 'x' {
			src = m.split(m.vec(s, b, 4), from)
		} else {
			ad := m.ea(s, b)
			m.locate(s, ad, int64(bytes), false)
			for i := 0; i < n; i++ {
				src = append(src, m.loadMem(s, ad+uint64(i*int(from)/8), int64(from/8)))
			}
		}
		r := make(lanes, n)
		for i := range r {
			if mn[4] == 's' {
				r[i] = c.SExt(src[i], to)
			} else {
				r[i] = c.ZExt(src[i], to)
			}
		}
		set(m.join(r, to))
		return
	case "pslld", "psrld", "psrad", "psllw", "psrlw", "psraw", "psllq", "psrlq":
		w := map[byte]uint8{'w': 16, 'd': 32, 'q': 64}[mn[len(mn)-1]]
		sh := &o[len(o)-1]
		src := &o[0]
		if vex {
			src = &o[1]
		}
		var k uint64
		if sh.kind == 'i' {
			k = sh.imm
		} else {
			t := m.getW(s, sh, 8)
			if t.op != OpConst {
				t = c.Const(64, uint64(m.ex.concrete(s.st, t)))
			}
			k = t.v
		}
		v := m.split(m.vec(s, src, nl), w)
		r := make(lanes, len(v))
		for i := range v {
			switch {
			case mn[2] == 'r' && mn[3] == 'a':
				if k >= uint64(w) {
					k = uint64(w) - 1
				}
				r[i] = c.Ashr(v[i], c.Const(w, k))
			case k >= uint64(w):
				r[i] = c.Const(w, 0)
			case mn[2] == 'r':
				r[i] = c.Lshr(v[i], c.Const(w, k))
			default:
				r[i] = c.Shl(v[i], c.Const(w, k))
			}
		}
		set(m.join(r, w))
		return
	case "pslldq", "psrldq", "palignr":
		k := int(o[len(o)-1].imm)
		var bs lanes
		if mn == "palignr" {
			bs = append(m.split(m.vec(s, b, 4), 8), m.split(m.vec(s, a, 4), 8)...)
		} else {
			src := &o[0]
			if vex {
				src = &o[1]
			}
			bs = m.split(m.vec(s, src, 4), 8)
			if mn == "pslldq" {
				k = -k
			}
		}
		r := make(lanes, 16)
		for i := range r {
			if i+k >= 0 && i+k < len(bs) {
				r[i] = bs[i+k]
			} else {
				r[i] = c.Const(8, 0)
			}
		}
		if nl != 4 {
			unsup("%s", in.text)
		}
		set(m.join(r, 8))
		return
	case "pand", "andps", "andpd", "por", "orps", "orpd", "pxor", "xorps", "xorpd", "pandn", "andnps", "andnpd":
		if a.kind == 'x' && b.kind == 'x' && a.reg == b.reg && (strings.HasPrefix(mn, "pxor") || strings.HasPrefix(mn, "xor")) {
			w := make(lanes, nl)
			for i := range w {
				w[i] = zero
			}
			set(w)
			return
		}
		x, y := vecA(), vecB()
		r := make(lanes, nl)
		for i := range r {
			switch {
			case strings.Contains(mn, "andn"):
				r[i] = c.BAnd(c.BNot(x[i]), y[i])
			case strings.Contains(mn, "and"):
				r[i] = m.fand(x[i], y[i])
			case strings.Contains(mn, "xor"):
				r[i] = m.fxor(x[i], y[i])
			default:
				r[i] = c.BOr(x[i], y[i])
			}
		}
		set(r)
		return
	case "paddb", "paddw", "paddd", "paddq", "psubb", "psubw", "psubd", "psubq", "pmullw", "pmulld", "pcmpeqb", "pcmpeqw", "pcmpeqd", "pcmpgtb", "pcmpgtw", "pcmpgtd", "pminsw", "pmaxsw", "pminub", "pmaxub", "pminsd", "pmaxsd", "paddsw", "psubsw", "paddsb", "psubsb", "paddusb", "psubusb", "paddusw", "psubusw":
		w := map[byte]uint8{'b': 8, 'w': 16, 'd': 32, 'q': 64}[mn[len(mn)-1]]
		if strings.HasPrefix(mn, "pcmpeq") && a.kind == 'x' && b.kind == 'x' && a.reg == b.reg {
			r := make(lanes, nl)
			for i := range r {
				r[i] = c.Const(32, 0xffffffff)
			}
			set(r)
			return
		}
		x, y := m.split(vecA(), w), m.split(vecB(), w)
		r := make(lanes, len(x))
		ones := c.Const(w, mask(w))
		for i := range r {
			p, q := x[i], y[i]
			switch strings.TrimRight(mn, "bwdq") {
			case "pa": // padd*
				r[i] = c.Add(p, q)
			case "psu":
				r[i] = c.Sub(p, q)
			case "pmull":
				r[i] = c.Mul(p, q)
			case "pcmpe":
				r[i] = c.Ite(c.Eq(p, q), ones, c.Const(w, 0))
			case "pcmpgt":
				r[i] = c.Ite(c.Slt(q, p), ones, c.Const(w, 0))
			case "pmins":
				r[i] = c.Ite(c.Slt(p, q), p, q)
			case "pmaxs":
				r[i] = c.Ite(c.Slt(q, p), p, q)
			case "pminu":
				r[i] = c.Ite(c.Ult(p, q), p, q)
			case "pmaxu":
				r[i] = c.Ite(c.Ult(q, p), p, q)
			case "padds", "psubs":
				p2, q2 := c.SExt(p, 2*w), c.SExt(q, 2*w)
				t := c.Add(p2, q2)
				if mn[1] == 's' {
					t = c.Sub(p2, q2)
				}
				r[i] = m.sat(t, w, int64(-1)<<(w-1), int64(1)<<(w-1)-1)
			case "paddus", "psubus":
				p2, q2 := c.ZExt(p, 2*w), c.ZExt(q, 2*w)
				t := c.Add(p2, q2)
				if mn[1] == 's' {
					t = c.Sub(p2, q2)
				}
				r[i] = m.sat(t, w, 0, int64(1)<<w-1)
			default:
				unsup("instruction %s", in.text)
			}
		}
		set(m.join(r, w))
		return
	case "cvtdq2ps":
		v := m.vecSrc(s, &o[1], nl, vex)
		r := make(lanes, nl)
		for i := range r {
			r[i] = c.SIToF(v[i], 32)
		}
		set(r)
		return
	case "cvtdq2pd":
		v := m.vec(s, &o[1], dst.w/8)
		r := make(lanes, dst.w/8)
		for i := range r {
			r[i] = c.SIToF(v[i], 64)
		}
		set(m.join(r, 64))
		return
	case "cvtps2pd":
		v := m.vec(s, &o[1], dst.w/8)
		r := make(lanes, dst.w/8)
		for i := range r {
			r[i] = c.FCvt(v[i], 64)
		}
		set(m.join(r, 64))
		return
	case "cvtpd2ps":
		v := m.split(m.vecSrc(s, &o[1], nl, vex), 64)
		r := make(lanes, 4)
		for i := range r {
			r[i] = zero
			if i < len(v) {
				r[i] = c.FCvt(v[i], 32)
			}
		}
		m.setVec(s, dst, r, vex)
		return
	case "cvttps2dq", "cvtps2dq":
		v := m.vecSrc(s, &o[1], nl, vex)
		r := make(lanes, nl)
		for i := range r {
			r[i] = c.FToSI(v[i], 32, mn == "cvtps2dq")
		}
		set(r)
		return
	case "cvttss2si", "cvtss2si", "cvttsd2si", "cvtsd2si":
		w := 4
		if strings.Contains(mn, "sd2") {
			w = 8
		}
		v := m.getW(s, &o[1], w)
		m.setR(s, dst, c.FToSI(v, uint8(dst.w*8), mn[3] != 't'))
		return
	case "cvtsi2ss", "cvtsi2sd":
		last := &o[len(o)-1]
		v := m.get(s, last)
		w := m.vec(s, a, 4)
		if mn == "cvtsi2ss" {
			w[0] = c.SIToF(v, 32)
		} else {
			t := c.SIToF(v, 64)
			w[0], w[1] = c.Extract(t, 0, 32), c.Extract(t, 32, 32)
		}
		m.setVec(s, dst, w, vex)
		return
	case "cvtss2sd":
		t := c.FCvt(m.getW(s, b, 4), 64)
		w := m.vec(s, a, 4)
		w[0], w[1] = c.Extract(t, 0, 32), c.Extract(t, 32, 32)
		m.setVec(s, dst, w, vex)
		return
	case "cvtsd2ss":
		t := c.FCvt(m.getW(s, b, 8), 32)
		w := m.vec(s, a, 4)
		w[0] = t
		m.setVec(s, dst, w, vex)
		return
	case "ucomiss", "comiss", "ucomisd", "comisd":
		w := 4
		if strings.HasSuffix(mn, "sd") {
			w = 8
		}
		x, y := m.getW(s, &o[0], w), m.getW(s, &o[1], w)
		un := c.Or(c.FIsNaN(x), c.FIsNaN(y))
		s.f = mflags{zf: c.Or(un, c.FEq(x, y)), pf: un, cf: c.Or(un, c.FLt(x, y)), of: c.False, sf: c.False}
		return
	case "haddps":
		x, y := vecA(), vecB()
		var r lanes
		for h := 0; h < nl; h += 4 {
			r = append(r, c.FAdd(x[h], x[h+1]), c.FAdd(x[h+2], x[h+3]), c.FAdd(y[h], y[h+1]), c.FAdd(y[h+2], y[h+3]))
		}
		set(r)
		return
	case "addsubps":
		x, y := vecA(), vecB()
		r := make(lanes, nl)
		for i := range r {
			if i&1 == 0 {
				r[i] = c.FSub(x[i], y[i])
			} else {
				r[i] = c.FAdd(x[i], y[i])
			}
		}
		set(r)
		return
	case "movsldup", "movshdup":
		v := m.vec(s, &o[1], nl)
		r := make(lanes, nl)
		k := 0
		if mn == "movshdup" {
			k = 1
		}
		for i := range r {
			r[i] = v[i&^1+k]
		}
		set(r)
		return
	case "blendps":
		x, y := vecA(), vecB()
		im := rest[len(rest)-1].imm
		r := make(lanes, nl)
		for i := range r {
			r[i] = x[i]
			if im>>uint(i)&1 == 1 {
				r[i] = y[i]
			}
		}
		set(r)
		return
	case "sqrtps":
		v := m.vecSrc(s, &o[1], nl, vex)
		r := make(lanes, nl)
		for i := range r {
			r[i] = c.FSqrt(v[i])
		}
		set(r)
		return
	}
	if strings.HasPrefix(mn, "fmadd") || strings.HasPrefix(mn, "fmsub") || strings.HasPrefix(mn, "fnmadd") || strings.HasPrefix(mn, "fnmsub") {
		m.fma(s, in, mn, nl)
		return
	}
	// packed and scalar arithmetic
	if len(mn) > 2 {
		op, suf := mn[:len(mn)-2], mn[len(mn)-2:]
		switch op {
		case "add", "sub", "mul", "div", "min", "max", "sqrt":
			switch suf {
			case "ps":
				x, y := vecA(), vecB()
				r := make(lanes, nl)
				for i := range r {
					r[i] = m.fbin(op, x[i], y[i])
				}
				set(r)
				return
			case "pd":
				x, y := m.split(vecA(), 64), m.split(vecB(), 64)
				r := make(lanes, len(x))
				for i := range r {
					r[i] = m.fbin(op, x[i], y[i])
				}
				set(m.join(r, 64))
				return
			case "ss":
				y := m.getW(s, b, 4)
				w := m.vec(s, a, 4)
				w[0] = m.fbin(op, w[0], y)
				m.setVec(s, dst, w, vex)
				return
			case "sd":
				y := m.getW(s, b, 8)
				w := m.vec(s, a, 4)
				t := m.fbin(op, c.Concat(w[1], w[0]), y)
				w[0], w[1] = c.Extract(t, 0, 32), c.Extract(t, 32, 32)
				m.setVec(s, dst, w, vex)
				return
			}
		}
	}
	unsup("instruction %s", in.text)
}

func (m *machine) vecSrc(s *mstate, o *operand, n int, vex bool) lanes {
	if !vex {
		m.aligned(s, o, 16)
	}
	return m.vec(s, o, n)
}

// fand/fxor recognise sign-bit manipulation.
func (m *machine) fand(x, y *Term) *Term {
	c := m.ex.c
	if x.op == OpConst {
		x, y = y, x
	}
	if y.op == OpConst && y.v == 0x7fffffff {
		return c.FAbs(x)
	}
	return c.BAnd(x, y)
}
func (m *machine) fxor(x, y *Term) *Term {
	c := m.ex.c
	if x.op == OpConst {
		x, y = y, x
	}
	if y.op == OpConst && y.v == 0x80000000 {
		return c.FNeg(x)
	}
	return c.BXor(x, y)
}

func (m *machine) fma(s *mstate, in *insn, mn string, nl int) {
	c := m.ex.c
	i := strings.IndexAny(mn, "123")
	if i < 0 || len(mn) != i+5 {
		unsup("%s", in.text)
	}
	neg := mn[1] == 'n'
	sub := strings.Contains(mn, "sub")
	ord, suf := mn[i:i+3], mn[i+3:]
	f := func(d, a, b *Term, w uint8) *Term {
		var x, y, z *Term
		switch ord {
		case "132":
			x, y, z = d, b, a
		case "213":
			x, y, z = a, d, b
		case "231":
			x, y, z = a, b, d
		default:
			unsup("%s", in.text)
		}
		if neg {
			x = c.FNeg(x)
		}
		if sub {
			z = c.FNeg(z)
		}
		if w == 32 {
			return c.mk(OpUF, 32, 0, "fma32", x, y, z)
		}
		return c.UF("fma", 64, x, y, z)
	}
	o := in.ops
	switch suf {
	case "ps":
		d, a, b := m.vec(s, &o[0], nl), m.vec(s, &o[1], nl), m.vec(s, &o[2], nl)
		r := make(lanes, nl)
		for i := range r {
			r[i] = f(d[i], a[i], b[i], 32)
		}
		m.setVec(s, &o[0], r, true)
	case "ss":
		d := m.vec(s, &o[0], 4)
		d[0] = f(d[0], m.lane(s, o[1].reg, 0), m.getW(s, &o[2], 4), 32)
		m.setVec(s, &o[0], d, true)
	default:
		unsup("%s", in.text)
	}
}

func hex(v uint64) string { return strconv.FormatUint(v, 16) }
