package main

import (
	"debug/elf"
	"fmt"
	"go/types"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- the compiled binary ----

type operand struct {
	kind  byte // 'r' general, 'x' vector, 'm' memory, 'i' immediate
	reg   int
	w     int // width in bytes
	high  bool
	imm   uint64
	base  int // -1 none, 16 rip, 17 fs
	index int // -1 none
	scale int64
	disp  int64
}

type insn struct {
	addr uint64
	next uint64
	mn   string
	ops  []operand
	tgt  uint64 // branch target
	text string
	ext  string
}

type symbol struct {
	name       string
	addr, size uint64
	fn         bool
}

type Binary struct {
	file  string
	once  sync.Once
	err   error
	code  map[uint64]*insn
	syms  map[string]*symbol
	byAdr []*symbol
	secs  []*elf.Section
	data  map[*elf.Section][]byte
}

func loadBinary(f string) *Binary { return &Binary{file: f} }

func (b *Binary) load() {
	b.code = map[uint64]*insn{}
	b.syms = map[string]*symbol{}
	f, err := elf.Open(b.file)
	if err != nil {
		b.err = err
		return
	}
	defer f.Close()
	ss, err := f.Symbols()
	if err != nil {
		b.err = err
		return
	}
	for _, s := range ss {
		if s.Value == 0 || s.Name == "" {
			continue
		}
		y := &symbol{name: s.Name, addr: s.Value, size: s.Size, fn: elf.ST_TYPE(s.Info) == elf.STT_FUNC}
		b.syms[s.Name] = y
		b.byAdr = append(b.byAdr, y)
	}
	sort.Slice(b.byAdr, func(i, j int) bool { return b.byAdr[i].addr < b.byAdr[j].addr })
	b.data = map[*elf.Section][]byte{}
	for _, s := range f.Sections {
		if s.Flags&elf.SHF_ALLOC != 0 && s.Flags&elf.SHF_EXECINSTR == 0 {
			b.secs = append(b.secs, s)
			if s.Type != elf.SHT_NOBITS {
				b.data[s], _ = s.Data()
			}
		}
	}
	// disassemble the ranges that hold assembly symbols of the module
	type rng struct{ lo, hi uint64 }
	var rs []rng
	for _, y := range b.byAdr {
		if strings.HasPrefix(y.name, modPath) && strings.HasSuffix(y.name, ".abi0") && y.fn && !strings.HasPrefix(y.name, ndPath) {
			rs = append(rs, rng{y.addr, y.addr + y.size})
		}
	}
	var m []rng
	for _, r := range rs {
		if len(m) > 0 && r.lo < m[len(m)-1].hi+65536 {
			if r.hi > m[len(m)-1].hi {
				m[len(m)-1].hi = r.hi
			}
			continue
		}
		m = append(m, r)
	}
	for _, r := range m {
		out, err := exec.Command("objdump", "-d", "-M", "intel", "--no-show-raw-insn",
			fmt.Sprintf("--start-address=%d", r.lo), fmt.Sprintf("--stop-address=%d", r.hi), b.file).Output()
		if err != nil {
			b.err = fmt.Errorf("objdump: %v", err)
			return
		}
		b.parse(string(out))
	}
}

func (b *Binary) parse(s string) {
	var prev *insn
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, " ") {
			continue
		}
		i := strings.Index(l, ":\t")
		if i < 0 {
			continue
		}
		a, err := strconv.ParseUint(strings.TrimSpace(l[:i]), 16, 64)
		if err != nil {
			continue
		}
		in := &insn{addr: a, text: strings.TrimSpace(l[i+2:])}
		if prev != nil {
			prev.next = a
		}
		prev = in
		b.code[a] = in
		parseInsn(in)
	}
}

var regIdx = map[string]struct {
	n, w int
	hi   bool
}{}

func init() {
	base := []string{"ax", "cx", "dx", "bx", "sp", "bp", "si", "di"}
	for i, n := range base {
		regIdx["r"+n] = struct {
			n, w int
			hi   bool
		}{i, 8, false}
		regIdx["e"+n] = struct {
			n, w int
			hi   bool
		}{i, 4, false}
		regIdx[n] = struct {
			n, w int
			hi   bool
		}{i, 2, false}
	}
	for i, n := range []string{"al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"} {
		regIdx[n] = struct {
			n, w int
			hi   bool
		}{i, 1, false}
	}
	for i, n := range []string{"ah", "ch", "dh", "bh"} {
		regIdx[n] = struct {
			n, w int
			hi   bool
		}{i, 1, true}
	}
	for i := 8; i < 16; i++ {
		for _, s := range []struct {
			s string
			w int
		}{{"", 8}, {"d", 4}, {"w", 2}, {"b", 1}} {
			regIdx[fmt.Sprintf("r%d%s", i, s.s)] = struct {
				n, w int
				hi   bool
			}{i, s.w, false}
		}
	}
}

func parseNum(s string) (uint64, bool) {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	s = strings.TrimPrefix(s, "+")
	v, err := strconv.ParseUint(s, 0, 64)
	if err != nil {
		return 0, false
	}
	if neg {
		v = -v
	}
	return v, true
}

var ptrW = map[string]int{"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8, "XMMWORD": 16, "YMMWORD": 32}

func parseInsn(in *insn) {
	t := in.text
	ripTarget := uint64(0)
	if i := strings.Index(t, "#"); i >= 0 {
		c := strings.Fields(t[i+1:])
		if len(c) > 0 {
			ripTarget, _ = strconv.ParseUint(c[0], 16, 64)
		}
		t = strings.TrimSpace(t[:i])
	}
	f := strings.Fields(t)
	if len(f) == 0 {
		return
	}
	in.mn = f[0]
	rest := strings.TrimSpace(t[len(f[0]):])
	for in.mn == "rep" || in.mn == "lock" || in.mn == "repz" || in.mn == "bnd" || in.mn == "repnz" || in.mn == "data16" || in.mn == "cs" {
		in.mn = in.mn + " " + strings.Fields(rest + " x")[0]
		rest = strings.TrimSpace(strings.TrimPrefix(rest, strings.Fields(rest + " x")[0]))
		break
	}
	in.ext = insnExt(in.mn, rest)
	if in.mn[0] == 'j' || in.mn == "call" {
		h := strings.Fields(rest)
		if len(h) > 0 && !strings.Contains(h[0], "PTR") && !strings.Contains(h[0], "[") {
			if _, isReg := regIdx[h[0]]; !isReg {
				in.tgt, _ = strconv.ParseUint(h[0], 16, 64)
				return
			}
		}
	}
	if rest == "" {
		return
	}
	depth := 0
	var parts []string
	st := 0
	for i := 0; i < len(rest); i++ {
		switch rest[i] {
		case '[':
			depth++
		case ']':
			depth--
		case ',':
			if depth == 0 {
				parts = append(parts, rest[st:i])
				st = i + 1
			}
		}
	}
	parts = append(parts, rest[st:])
	for _, p := range parts {
		p = strings.TrimSpace(p)
		o := operand{base: -1, index: -1, scale: 1}
		if r, ok := regIdx[p]; ok {
			o.kind, o.reg, o.w, o.high = 'r', r.n, r.w, r.hi
		} else if strings.HasPrefix(p, "xmm") || strings.HasPrefix(p, "ymm") {
			n, err := strconv.Atoi(p[3:])
			if err != nil || n > 15 {
				in.mn = "?" + in.mn
				return
			}
			o.kind, o.reg, o.w = 'x', n, 16
			if p[0] == 'y' {
				o.w = 32
			}
		} else if v, ok := parseNum(p); ok {
			o.kind, o.imm = 'i', v
		} else {
			o.kind = 'm'
			if i := strings.Index(p, " PTR "); i >= 0 {
				o.w = ptrW[p[:i]]
				p = p[i+5:]
			}
			if strings.HasPrefix(p, "fs:") {
				o.base = 17
				p = p[3:]
				if v, ok := parseNum(p); ok {
					o.disp = int64(v)
					in.ops = append(in.ops, o)
					continue
				}
			}
			if strings.HasPrefix(p, "ds:") || strings.HasPrefix(p, "es:") {
				p = p[3:]
			}
			if len(p) < 2 || p[0] != '[' {
				in.mn = "?" + in.mn
				return
			}
			p = p[1 : len(p)-1]
			// split into signed terms
			cur := ""
			var ts []string
			for _, ch := range p {
				if ch == '+' || ch == '-' {
					if cur != "" {
						ts = append(ts, cur)
					}
					cur = ""
					if ch == '-' {
						cur = "-"
					}
					continue
				}
				cur += string(ch)
			}
			ts = append(ts, cur)
			for _, x := range ts {
				if x == "rip" {
					o.base = 16
					o.disp = int64(ripTarget)
					break
				}
				if k := strings.IndexByte(x, '*'); k >= 0 {
					r, ok := regIdx[x[:k]]
					sc, _ := parseNum(x[k+1:])
					if ok {
						o.index = r.n
					} else {
						o.index = -1 // riz
					}
					o.scale = int64(sc)
					continue
				}
				if r, ok := regIdx[x]; ok {
					if o.base < 0 {
						o.base = r.n
					} else {
						o.index = r.n
					}
					continue
				}
				v, ok := parseNum(x)
				if !ok {
					in.mn = "?" + in.mn
					return
				}
				o.disp += int64(v)
			}
		}
		in.ops = append(in.ops, o)
	}
}

// insnExt gives the instruction-set extension beyond SSE2 an instruction
// belongs to.
func insnExt(mn, rest string) string {
	ymm := strings.Contains(rest, "ymm") || strings.Contains(rest, "YMMWORD")
	switch {
	case strings.HasPrefix(mn, "vfm") || strings.HasPrefix(mn, "vfnm"):
		return "FMA"
	case mn == "vbroadcastss" || mn == "vbroadcastsd":
		if strings.Contains(rest, "PTR") {
			return "AVX"
		}
		return "AVX2"
	case mn == "vinserti128" || mn == "vextracti128" || mn == "vperm2i128" || strings.HasPrefix(mn, "vpbroadcast") || mn == "vpermd" || mn == "vpermps" || mn == "vpermq" || mn == "vpermpd" || mn == "vpblendd" || mn == "vpsllvd" || mn == "vpsrlvd" || mn == "vpsravd":
		return "AVX2"
	case strings.HasPrefix(mn, "v") && mn != "verr" && mn != "verw":
		if strings.HasPrefix(mn, "vp") && ymm && mn != "vperm2f128" && mn != "vpermilps" && mn != "vpermilpd" && mn != "vptest" {
			return "AVX2"
		}
		return "AVX"
	case strings.HasPrefix(mn, "pmovsx") || strings.HasPrefix(mn, "pmovzx"):
		return "SSE4.1"
	}
	switch mn {
	case "pmulld", "pminsd", "pmaxsd", "pminud", "pmaxud", "pminsb", "pmaxsb", "pminuw", "pmaxuw", "packusdw", "blendps", "blendpd", "pblendw", "blendvps", "pblendvb", "ptest", "insertps", "extractps", "pinsrb", "pinsrd", "pinsrq", "pextrb", "pextrd", "pextrq", "roundps", "roundpd", "roundss", "roundsd", "dpps", "dppd", "pmuldq", "pcmpeqq", "movntdqa":
		return "SSE4.1"
	case "pcmpgtq":
		return "SSE4.2"
	case "haddps", "haddpd", "hsubps", "addsubps", "addsubpd", "movsldup", "movshdup", "movddup", "lddqu":
		return "SSE3"
	case "pshufb", "pabsb", "pabsw", "pabsd", "palignr", "phaddw", "phaddd", "psignb", "psignw", "psignd", "pmaddubsw", "pmulhrsw":
		return "SSSE3"
	case "popcnt":
		return "POPCNT"
	}
	return ""
}

// extAddrs lists the module's assembly instructions of each extension.
func (b *Binary) extAddrs() map[string][]uint64 {
	r := map[string][]uint64{}
	for _, y := range b.byAdr {
		if !strings.HasPrefix(y.name, modPath+"/dsp.") || !strings.HasSuffix(y.name, ".abi0") || !y.fn {
			continue
		}
		for a := y.addr; a < y.addr+y.size; {
			in := b.code[a]
			if in == nil {
				break
			}
			if in.ext != "" {
				r[in.ext] = append(r[in.ext], a)
			}
			a = in.next
		}
	}
	return r
}

func (b *Binary) symAt(a uint64) *symbol {
	i := sort.Search(len(b.byAdr), func(i int) bool { return b.byAdr[i].addr > a })
	for i--; i >= 0 && i > len(b.byAdr)-1-len(b.byAdr); i-- {
		y := b.byAdr[i]
		if a < y.addr+y.size || a == y.addr {
			return y
		}
		if a-y.addr > 1<<20 {
			return nil
		}
	}
	return nil
}

// ---- machine state ----

type mflags struct {
	cf, zf, sf, of, pf *Term
	slt                *Term // signed less-than when produced by a comparison
}

type mstate struct {
	st   *State
	r    [16]*Term
	x    [16][8]*Term
	f    mflags
	pc   uint64
	back int
}

type machine struct {
	ex    *Exec
	b     *Binary
	fn    *ssa.Function
	stack *Object
	top   int64 // offset of the return address
	bp    *Term
	work  []*mstate
	outs  []Outcome
	magic uint64
	nargs []int64
	offs  []int64
	extOK map[extKey]bool
}

const magicRet = 0xdead0000

// abi0Layout gives argument and result offsets.
func abi0Layout(sig *types.Signature) (ao, ro []int64, total int64) {
	off := int64(0)
	place := func(t types.Type) int64 {
		al := sizes.Alignof(t)
		off = (off + al - 1) / al * al
		r := off
		off += sizes.Sizeof(t)
		return r
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ao = append(ao, place(sig.Params().At(i).Type()))
	}
	off = (off + 7) / 8 * 8
	for i := 0; i < sig.Results().Len(); i++ {
		ro = append(ro, place(sig.Results().At(i).Type()))
	}
	total = (off + 7) / 8 * 8
	return
}

// flatten turns pointers into addresses.
func (ex *Exec) machStore(st *State, o *Object, off int64, t types.Type, v Value) {
	c := ex.c
	adr := func(p Ptr) *Term {
		if p.IsNil() {
			return c.Int(0)
		}
		if p.Idx != nil {
			n := ex.concrete(st, p.Idx)
			p.Base += n * p.Stride
		}
		return c.Const(64, ex.obj(st, p.Obj).addr()+uint64(p.Base))
	}
	switch x := v.(type) {
	case Slice:
		ex.storeRaw(st, o, off, 8, adr(x.P))
		ex.storeRaw(st, o, off+8, 8, x.Len)
		ex.storeRaw(st, o, off+16, 8, x.Cap)
	case Str:
		ex.storeRaw(st, o, off, 8, adr(x.P))
		ex.storeRaw(st, o, off+8, 8, x.Len)
	case Ptr:
		ex.storeRaw(st, o, off, 8, adr(x))
	case *Term, Complex:
		ex.storeObj(st, o, off, t, v)
	case StructV:
		s := under(t).(*types.Struct)
		so := structOffsets(s)
		for i := range x.F {
			ex.machStore(st, o, off+so[i], s.Field(i).Type(), x.F[i])
		}
	default:
		unsup("argument of type %v to assembly", t)
	}
}

func (ex *Exec) addrPtr(st *State, a uint64) (Ptr, bool) {
	if a == 0 {
		return Ptr{}, true
	}
	if a < 0x100000000 {
		return Ptr{}, false
	}
	id := int((a - 0x100000000) / 0x1000000)
	o, ok := st.objs[id]
	if !ok {
		o, ok = ex.base.objs[id]
	}
	if !ok {
		return Ptr{}, false
	}
	return Ptr{Obj: id, Base: int64(a) - int64(o.addr())}, true
}

// machLoad reads a Go value from a frame whose pointers are addresses.
func (ex *Exec) machLoad(st *State, o *Object, off int64, t types.Type) Value {
	ptr := func(off int64) Ptr {
		a := ex.loadBits(o, off, 8)
		if a.op != OpConst {
			unsup("symbolic pointer in assembly frame")
		}
		p, ok := ex.addrPtr(st, a.v)
		if !ok {
			unsup("wild pointer in assembly frame")
		}
		return p
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return Slice{ptr(off), ex.loadBits(o, off+8, 8), ex.loadBits(o, off+16, 8)}
	case *types.Pointer:
		return ptr(off)
	case *types.Basic:
		if u.Kind() == types.String {
			return Str{ptr(off), ex.loadBits(o, off+8, 8)}
		}
		if u.Kind() == types.UnsafePointer {
			return ptr(off)
		}
		return ex.loadObj(o, off, t)
	}
	unsup("value of type %v in assembly frame", t)
	return nil
}

func (ex *Exec) callAsm(st *State, fn *ssa.Function, args []Value) []Outcome {
	b := ex.prog.bin
	if b == nil {
		unsup("assembly function %s", fn)
	}
	b.once.Do(b.load)
	if b.err != nil {
		unsup("reading the compiled binary: %v", b.err)
	}
	name := fn.Pkg.Pkg.Path() + "." + fn.Name()
	y := b.syms[name+".abi0"]
	if y == nil {
		y = b.syms[name]
	}
	if y == nil {
		unsup("no machine code for %s", name)
	}
	ex.asmFns[name] = true
	ao, ro, total := abi0Layout(fn.Signature)
	const below = 4096
	m := &machine{ex: ex, b: b, fn: fn, extOK: map[extKey]bool{}}
	o := ex.alloc(st, below+8+total, "stack frame of "+fn.Name())
	m.stack = o
	m.top = below
	for i, a := range args {
		ex.machStore(st, o, below+8+ao[i], fn.Signature.Params().At(i).Type(), a)
	}
	for i := range ro {
		t := fn.Signature.Results().At(i).Type()
		for k := int64(0); k < sizeof(t); k += minI(8, sizeof(t)) {
			w := minI(8, sizeof(t)-k)
			ex.storeRaw(st, o, below+8+ro[i]+k, w, ex.c.Var(ex.varName("frame."+fn.Name()), uint8(w*8), false))
		}
	}
	ex.storeRaw(st, o, below, 8, ex.c.Const(64, magicRet))
	ms := &mstate{st: st, pc: y.addr}
	ms.r[4] = ex.c.Const(64, o.addr()+below)
	m.bp = ex.c.Var("asm.bp", 64, false)
	ms.r[5] = m.bp
	f := ex.c.False
	ms.f = mflags{cf: f, zf: f, sf: f, of: f, pf: f}
	m.work = []*mstate{ms}
	for len(m.work) > 0 {
		best := 0
		for i := 1; i < len(m.work); i++ {
			a, b := m.work[i], m.work[best]
			if a.back < b.back || a.back == b.back && a.pc < b.pc {
				best = i
			}
		}
		s := m.work[best]
		m.work[best] = m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		m.run(s)
		if len(m.work) > 2000 || len(m.outs) > 2000 {
			unsup("too many paths in assembly %s", fn.Name())
		}
	}
	// collect results
	for i := range m.outs {
		oc := &m.outs[i]
		if oc.pan != "" {
			continue
		}
		so := ex.obj(oc.st, o.id)
		var rv Tuple
		for k := range ro {
			rv = append(rv, ex.machLoad(oc.st, so, below+8+ro[k], fn.Signature.Results().At(k).Type()))
		}
		switch len(rv) {
		case 0:
			oc.ret = nil
		case 1:
			oc.ret = rv[0]
		default:
			oc.ret = rv
		}
	}
	return m.outs
}

func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (m *machine) fault(s *mstate, f string, a ...interface{}) {
	m.outs = append(m.outs, Outcome{st: s.st, pan: fmt.Sprintf(f, a...) + " in " + m.fn.Name(), fault: true})
}

func (m *machine) push(s *mstate) {
	for i, o := range m.work {
		if o.pc == s.pc && o.back == s.back {
			if n := m.merge(o, s); n != nil {
				m.work[i] = n
				m.ex.merges++
				return
			}
		}
	}
	m.work = append(m.work, s)
}

func (m *machine) merge(a, b *mstate) *mstate {
	ex := m.ex
	// addresses and counters must agree to be worth merging
	for i := range a.r {
		if a.r[i] != b.r[i] && a.r[i] != nil && b.r[i] != nil && a.r[i].op == OpConst && b.r[i].op == OpConst {
			return nil
		}
	}
	st, cond := ex.mergeStates(a.st, b.st)
	if st == nil {
		return nil
	}
	n := &mstate{st: st, pc: a.pc, back: a.back}
	for i := range a.r {
		if a.r[i] == nil || b.r[i] == nil {
			continue
		}
		n.r[i] = ex.c.Ite(cond, a.r[i], b.r[i])
	}
	for i := range a.x {
		for j := range a.x[i] {
			if a.x[i][j] == nil || b.x[i][j] == nil {
				continue
			}
			n.x[i][j] = ex.c.Ite(cond, a.x[i][j], b.x[i][j])
		}
	}
	mf := func(x, y *Term) *Term { return ex.c.Ite(cond, x, y) }
	n.f = mflags{cf: mf(a.f.cf, b.f.cf), zf: mf(a.f.zf, b.f.zf), sf: mf(a.f.sf, b.f.sf), of: mf(a.f.of, b.f.of), pf: mf(a.f.pf, b.f.pf)}
	return n
}

func (m *machine) clone(s *mstate) *mstate {
	n := *s
	n.st = m.ex.clone(s.st)
	return &n
}

type machFault struct{ msg string }

func (m *machine) run(s *mstate) {
	ex := m.ex
	save := *s
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(machFault); ok {
				m.fault(s, "%s", f.msg)
				return
			}
			nc, ok := r.(needConcrete)
			if !ok {
				panic(r)
			}
			vals := ex.candidates(s.st, nc.t)
			for i, v := range vals {
				n := save
				n.st = s.st
				if i < len(vals)-1 {
					n.st = ex.clone(s.st)
				}
				if len(vals) > 1 {
					ex.addPC(n.st, ex.c.Eq(nc.t, ex.c.Const(nc.t.w, v)))
				}
				cm := map[int32]uint64{nc.t.id: v}
				for k, x := range n.st.conc {
					cm[k] = x
				}
				n.st.conc = cm
				m.work = append(m.work, &n)
			}
		}
	}()
	ex.states++
	for {
		ex.tick(1)
		in := m.b.code[s.pc]
		if in == nil {
			m.fault(s, "jump to unknown code %#x", s.pc)
			return
		}
		save = *s
		if !m.step(s, in) {
			return
		}
		// join a state that waits at this address
		for _, o := range m.work {
			if o.pc == s.pc && o.back == s.back {
				m.push(s)
				return
			}
		}
	}
}

func (m *machine) freshName(n string) *Term { return m.ex.c.Var(m.ex.varName(n), 64, false) }

func (m *machine) reg(s *mstate, n int) *Term {
	if s.r[n] == nil {
		s.r[n] = m.ex.c.Var(m.ex.varName(fmt.Sprintf("asm.r%d", n)), 64, false)
	}
	return s.r[n]
}

func (m *machine) lane(s *mstate, n, l int) *Term {
	if s.x[n][l] == nil {
		s.x[n][l] = m.ex.c.Var(m.ex.varName(fmt.Sprintf("asm.x%d.%d", n, l)), 32, false)
	}
	return s.x[n][l]
}

func (m *machine) ea(s *mstate, o *operand) uint64 {
	c := m.ex.c
	if o.base == 16 {
		return uint64(o.disp)
	}
	t := c.Const(64, uint64(o.disp))
	if o.base == 17 {
		panic(unsupported{"thread-local access"})
	}
	if o.base >= 0 {
		t = c.Add(t, m.reg(s, o.base))
	}
	if o.index >= 0 {
		t = c.Add(t, c.Mul(m.reg(s, o.index), c.Const(64, uint64(o.scale))))
	}
	return uint64(m.ex.concrete(s.st, t))
}

// locate finds the object behind an address range.
func (m *machine) locate(s *mstate, a uint64, n int64, write bool) (int, int64) {
	ex := m.ex
	if a >= 0x100000000 {
		p, ok := ex.addrPtr(s.st, a)
		if !ok {
			panic(machFault{fmt.Sprintf("access to unmapped address %#x", a)})
		}
		o := ex.obj(s.st, p.Obj)
		if p.Base < 0 || p.Base+n > o.size {
			w := "read"
			if write {
				w = "write"
			}
			nm := o.name
			if p.Base > o.size+4096 {
				nm = "memory"
			}
			panic(machFault{fmt.Sprintf("%s of %d bytes outside %s: offset %d of %d", w, n, nm, p.Base, o.size)})
		}
		if write && o.ro {
			panic(machFault{"write to read-only " + o.name})
		}
		return p.Obj, p.Base
	}
	y := m.b.symAt(a)
	if y == nil || y.fn {
		if a < 4096 {
			panic(machFault{"nil pointer access"})
		}
		panic(machFault{fmt.Sprintf("access to address %#x", a)})
	}
	// a Go variable?
	for _, g := range m.fn.Pkg.Members {
		gl, ok := g.(*ssa.Global)
		if ok && gl.Pkg.Pkg.Path()+"."+gl.Name() == y.name {
			id := ex.global(gl)
			off := int64(a - y.addr)
			if off+n > ex.obj(s.st, id).size {
				panic(machFault{"access outside variable " + gl.Name()})
			}
			return id, off
		}
	}
	key := "sym:" + y.name
	id, ok := ex.strs[key]
	if !ok {
		var sec *elf.Section
		for _, x := range m.b.secs {
			if y.addr >= x.Addr && y.addr < x.Addr+x.Size {
				sec = x
			}
		}
		if sec == nil {
			panic(machFault{"access to " + y.name})
		}
		sz := int64(y.size)
		o := ex.alloc(ex.base, sz+32, y.name)
		d := m.b.data[sec]
		for i := int64(0); i < sz+32; i++ {
			k := int64(y.addr-sec.Addr) + i
			if d != nil && k < int64(len(d)) && d[k] != 0 {
				ex.storeRaw(ex.base, o, i, 1, ex.c.Const(8, uint64(d[k])))
			}
		}
		o.ro = sec.Flags&elf.SHF_WRITE == 0
		id = o.id
		ex.strs[key] = id
	}
	return id, int64(a - y.addr)
}

func (m *machine) loadMem(s *mstate, a uint64, n int64) *Term {
	id, off := m.locate(s, a, n, false)
	o := m.ex.obj(s.st, id)
	c := o.at(off)
	if c != nil && c.sz == 8 && n == 8 {
		if p, ok := c.v.(Ptr); ok {
			if p.IsNil() {
				return m.ex.c.Int(0)
			}
			return m.ex.c.Const(64, m.ex.obj(s.st, p.Obj).addr()+uint64(p.Base))
		}
	}
	return m.ex.loadBits(o, off, n)
}

func (m *machine) storeMem(s *mstate, a uint64, n int64, v *Term) {
	id, off := m.locate(s, a, n, true)
	o := m.ex.wobj(s.st, id)
	m.ex.storeRaw(s.st, o, off, n, v)
}

func (m *machine) get(s *mstate, o *operand) *Term { return m.getW(s, o, o.w) }

func (m *machine) getW(s *mstate, o *operand, w int) *Term {
	c := m.ex.c
	switch o.kind {
	case 'r':
		if o.high {
			return c.Extract(m.reg(s, o.reg), 8, 8)
		}
		return c.Extract(m.reg(s, o.reg), 0, uint8(o.w*8))
	case 'i':
		return c.Const(uint8(w*8), o.imm)
	case 'm':
		return m.loadMem(s, m.ea(s, o), int64(w))
	case 'x':
		switch w {
		case 4:
			return m.lane(s, o.reg, 0)
		case 8:
			return c.Concat(m.lane(s, o.reg, 1), m.lane(s, o.reg, 0))
		}
	}
	unsup("operand")
	return nil
}

func (m *machine) setR(s *mstate, o *operand, v *Term) {
	c := m.ex.c
	old := func() *Term { return m.reg(s, o.reg) }
	switch o.w {
	case 8:
		s.r[o.reg] = v
	case 4:
		s.r[o.reg] = c.ZExt(v, 64)
	case 2:
		s.r[o.reg] = c.Concat(c.Extract(old(), 16, 48), v)
	case 1:
		if o.high {
			s.r[o.reg] = c.Concat(c.Extract(old(), 16, 48), c.Concat(v, c.Extract(old(), 0, 8)))
		} else {
			s.r[o.reg] = c.Concat(c.Extract(old(), 8, 56), v)
		}
	}
}

func (m *machine) set(s *mstate, o *operand, v *Term) {
	switch o.kind {
	case 'r':
		m.setR(s, o, v)
	case 'm':
		m.storeMem(s, m.ea(s, o), int64(v.w/8), v)
	default:
		unsup("destination")
	}
}

// vec reads n 32-bit lanes of a vector operand.
func (m *machine) vec(s *mstate, o *operand, n int) []*Term {
	r := make([]*Term, n)
	if o.kind == 'x' {
		for i := range r {
			r[i] = m.lane(s, o.reg, i)
		}
		return r
	}
	a := m.ea(s, o)
	m.locate(s, a, int64(n*4), false)
	for i := range r {
		r[i] = m.loadMem(s, a+uint64(4*i), 4)
	}
	return r
}

func (m *machine) setVec(s *mstate, o *operand, v []*Term, vex bool) {
	if o.kind == 'x' {
		for i := range v {
			s.x[o.reg][i] = v[i]
		}
		if vex {
			for i := len(v); i < 8; i++ {
				s.x[o.reg][i] = m.ex.c.Const(32, 0)
			}
		}
		return
	}
	a := m.ea(s, o)
	m.locate(s, a, int64(len(v)*4), true)
	for i := range v {
		m.storeMem(s, a+uint64(4*i), 4, v[i])
	}
}

func (m *machine) aligned(s *mstate, o *operand, n uint64) {
	if o.kind == 'm' {
		a := m.ea(s, o)
		if a%n != 0 {
			panic(machFault{fmt.Sprintf("misaligned %d-byte access", n)})
		}
	}
}

func (m *machine) szp(s *mstate, v *Term) {
	c := m.ex.c
	s.f.zf = c.Eq(v, c.Const(v.w, 0))
	s.f.sf = c.Slt(v, c.Const(v.w, 0))
	s.f.slt = nil
	// parity of the low byte
	p := c.Extract(v, 0, 1)
	for i := uint8(1); i < 8; i++ {
		p = c.BXor(p, c.Extract(v, i, 1))
	}
	s.f.pf = c.Eq(p, c.Const(1, 0))
}

func (m *machine) subFlags(s *mstate, a, b, r *Term) {
	c := m.ex.c
	m.szp(s, r)
	s.f.zf = c.Eq(a, b)
	s.f.cf = c.Ult(a, b)
	s.f.slt = c.Slt(a, b)
	s.f.of = c.Xor(s.f.slt, s.f.sf)
}

func (m *machine) cond(s *mstate, cc string) *Term {
	c := m.ex.c
	f := &s.f
	lt := f.slt
	if lt == nil {
		lt = c.Xor(f.sf, f.of)
	}
	switch cc {
	case "e", "z":
		return f.zf
	case "ne", "nz":
		return c.Not(f.zf)
	case "b", "c", "nae":
		return f.cf
	case "ae", "nc", "nb":
		return c.Not(f.cf)
	case "be", "na":
		return c.Or(f.cf, f.zf)
	case "a", "nbe":
		return c.Not(c.Or(f.cf, f.zf))
	case "l", "nge":
		return lt
	case "ge", "nl":
		return c.Not(lt)
	case "le", "ng":
		return c.Or(lt, f.zf)
	case "g", "nle":
		return c.Not(c.Or(lt, f.zf))
	case "s":
		return f.sf
	case "ns":
		return c.Not(f.sf)
	case "o":
		return f.of
	case "no":
		return c.Not(f.of)
	case "p", "pe":
		return f.pf
	case "np", "po":
		return c.Not(f.pf)
	}
	unsup("condition %s", cc)
	return nil
}

func (m *machine) jump(s *mstate, to uint64) bool {
	if to <= s.pc {
		s.back++
	}
	s.pc = to
	return true
}

// enter handles control leaving for another function; reports whether the
// state continues in machine code.
func (m *machine) enter(s *mstate, to uint64) bool {
	ex := m.ex
	y := m.b.symAt(to)
	if y == nil || y.addr != to {
		return m.jump(s, to) // within a function
	}
	name := strings.TrimSuffix(y.name, ".abi0")
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		m.fault(s, "jump to %s", y.name)
		return false
	}
	fn := ex.prog.lookup(name[:i], name[i+1:])
	if fn == nil {
		if name == "runtime.duffzero" || name == "runtime.morestack_noctxt" {
			unsup("call of %s", name)
		}
		return m.jump(s, to) // file-local assembly
	}
	if len(fn.Blocks) == 0 {
		ex.asmFns[name] = true
		return m.jump(s, to)
	}
	// Go function through its ABI0 wrapper
	sp := uint64(ex.concrete(s.st, s.r[4]))
	ao, ro, _ := abi0Layout(fn.Signature)
	id, off := m.locate(s, sp, 8, false)
	fo := ex.obj(s.st, id)
	var args []Value
	for k := range ao {
		if off+8+ao[k]+sizeof(fn.Signature.Params().At(k).Type()) > fo.size {
			panic(machFault{"argument of " + fn.Name() + " outside the frame"})
		}
		args = append(args, ex.machLoad(s.st, fo, off+8+ao[k], fn.Signature.Params().At(k).Type()))
	}
	outs := ex.call(s.st, Fn{F: fn}, args)
	for _, oc := range outs {
		if oc.pan != "" {
			m.outs = append(m.outs, oc)
			continue
		}
		n := *s
		n.st = oc.st
		w := ex.wobj(n.st, id)
		var rv []Value
		switch len(ro) {
		case 0:
		case 1:
			rv = []Value{oc.ret}
		default:
			rv = []Value(oc.ret.(Tuple))
		}
		for k := range ro {
			ex.machStore(n.st, w, off+8+ro[k], fn.Signature.Results().At(k).Type(), rv[k])
		}
		for k := range n.r {
			if k != 4 && k != 5 {
				n.r[k] = nil
			}
		}
		n.x = [16][8]*Term{}
		m.doRet(&n)
	}
	return false
}

// doRet pops the return address; the state goes on the work list or out.
func (m *machine) doRet(s *mstate) {
	ex := m.ex
	sp := uint64(ex.concrete(s.st, s.r[4]))
	ra := m.loadMem(s, sp, 8)
	if ra.op != OpConst {
		m.fault(s, "return to a symbolic address")
		return
	}
	s.r[4] = ex.c.Const(64, sp+8)
	if ra.v == magicRet {
		if sp != m.stack.addr()+uint64(m.top) {
			m.fault(s, "stack pointer not restored")
			return
		}
		if ex.job != nil && ex.job.Prop == "C08" {
			ok := ex.c.Eq(m.reg(s, 5), m.bp)
			ex.oblige(s.st, ok, "abi", "frame pointer preserved by "+m.fn.Name())
		}
		for i := range m.outs {
			o := &m.outs[i]
			if o.pan == "" {
				if st, _ := ex.mergeStates(o.st, s.st); st != nil {
					o.st = st
					ex.merges++
					return
				}
			}
		}
		m.outs = append(m.outs, Outcome{st: s.st})
		return
	}
	if _, ok := m.b.code[ra.v]; !ok {
		m.fault(s, "return to a wrong address")
		return
	}
	s.pc = ra.v
	m.push(s)
}

func (m *machine) needExt(s *mstate, ext string) {
	ex := m.ex
	f, ok := ex.featObj[ext]
	if !ok {
		return
	}
	k := extKey{ext, s.st.pc}
	if m.extOK[k] {
		return
	}
	m.extOK[k] = true
	ex.oblige(s.st, f, "feature", ext+" instruction executed only when detected, in "+m.fn.Name())
}

type extKey struct {
	ext string
	pc  *PC
}
