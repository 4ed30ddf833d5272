package dsp

import (
	"github.com/samuel/go-dsp/dsp/internal/cpu"
	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	nd.Reg("C09", "detect", H_C09_detect, nil)
	nd.Reg("C09", "options", H_C09_options, func(t int) [][]int {
		var r [][]int
		for i := range c09names {
			r = append(r, []int{i, vTier(t, 0, 1)})
		}
		return r
	})
	nd.Reg("C09", "optbytes", H_C09_optbytes, func(t int) [][]int {
		var r [][]int
		for k := 0; k <= 10; k++ {
			r = append(r, []int{k, 2}, []int{k, 3}, []int{k, 4})
		}
		return r
	})
	nd.Reg("C09", "kernels", H_C09_kernels, func(t int) [][]int {
		var r [][]int
		for k := 0; k < c09numKernels; k++ {
			for o := 0; o < 4; o++ {
				r = append(r, []int{k, vTier(t, 133, 261), o})
			}
		}
		return r
	})
}

// c09regs are the identification registers detection looks at.
type c09regs struct{ max, ecx1, edx1, ebx7, xcr uint32 }

func (r c09regs) os() bool      { return r.ecx1&(1<<27) != 0 }
func (r c09regs) osYMM() bool   { return nd.And(r.os(), nd.And(r.xcr&2 != 0, r.xcr&4 != 0)) }
func (r c09regs) l1() bool      { return r.max >= 1 }
func (r c09regs) c1(b uint) bool { return nd.And(r.l1(), r.ecx1&(1<<b) != 0) }
func (r c09regs) b7(b uint) bool { return nd.And(r.max >= 7, r.ebx7&(1<<b) != 0) }

// c09machine sets up an arbitrary processor.
func c09machine() c09regs {
	cpu.VReset()
	var r c09regs
	r.max = nd.U32("leaf0.eax")
	r.ecx1 = nd.U32("leaf1.ecx")
	r.edx1 = nd.U32("leaf1.edx")
	r.ebx7 = nd.U32("leaf7.ebx")
	r.xcr = nd.U32("xcr0")
	cpu.VSet(0, 0, r.max)
	cpu.VSet(1, 0, nd.U32("leaf1.eax"))
	cpu.VSet(1, 1, nd.U32("leaf1.ebx"))
	cpu.VSet(1, 2, r.ecx1)
	cpu.VSet(1, 3, r.edx1)
	cpu.VSet(2, 0, nd.U32("leaf7.eax"))
	cpu.VSet(2, 1, r.ebx7)
	cpu.VSet(2, 2, nd.U32("leaf7.ecx"))
	cpu.VSet(2, 3, nd.U32("leaf7.edx"))
	cpu.VSet(3, 0, nd.U32("leafx.eax"))
	cpu.VXcr(r.xcr, nd.U32("xcr0.edx"))
	c09clear()
	return r
}

func c09clear() {
	x := cpu.X86
	x.HasADX, x.HasAES, x.HasAVX, x.HasAVX2, x.HasBMI1, x.HasBMI2, x.HasERMS, x.HasFMA = false, false, false, false, false, false, false, false
	x.HasOSXSAVE, x.HasPCLMULQDQ, x.HasPOPCNT, x.HasSSE2, x.HasSSE3, x.HasSSSE3, x.HasSSE41, x.HasSSE42 = false, false, false, false, false, false, false, false
	cpu.X86 = x
}

var c09names = []string{"adx", "aes", "avx", "avx2", "bmi1", "bmi2", "erms", "fma", "pclmulqdq", "popcnt", "sse3", "sse41", "sse42", "ssse3", "sse2", "all", "nosuch", ""}

const c09numFeat = 15 // the first 15 names are features; 14 is required

func c09state() [c09numFeat]bool {
	x := &cpu.X86
	return [c09numFeat]bool{x.HasADX, x.HasAES, x.HasAVX, x.HasAVX2, x.HasBMI1, x.HasBMI2, x.HasERMS, x.HasFMA, x.HasPCLMULQDQ, x.HasPOPCNT, x.HasSSE3, x.HasSSE41, x.HasSSE42, x.HasSSSE3, x.HasSSE2}
}

// c09announced says which features the processor announces and the operating
// system supports.
func c09announced(r c09regs) [c09numFeat]bool {
	return [c09numFeat]bool{
		r.b7(19), r.c1(25), nd.And(r.c1(28), r.osYMM()), nd.And(r.b7(5), r.osYMM()), r.b7(3), r.b7(8), r.b7(9),
		nd.And(r.c1(12), r.osYMM()), r.c1(1), r.c1(23), r.c1(0), r.c1(19), r.c1(20), r.c1(9), nd.And(r.l1(), r.edx1&(1<<26) != 0),
	}
}

func H_C09_detect() {
	r := c09machine()
	cpu.Initialize("")
	got, can := c09state(), c09announced(r)
	for i := range got {
		nd.AssertI(nd.Imp(got[i], can[i]), "feature reported only if announced and enabled", i)
	}
	nd.Assert(nd.Imp(cpu.X86.HasOSXSAVE, r.c1(27)), "OSXSAVE reported only if announced")
}

// H_C09_options: one or two options in a row, among fields that are no
// options at all, on every processor.
func H_C09_options() {
	n1 := c09names[nd.P(0)]
	var envs []string
	want := [][c09numFeat]int8{} // -1 off, 0 untouched, 1 on
	mk := func(name, val string) (string, [c09numFeat]int8) {
		var w [c09numFeat]int8
		v := int8(0)
		if val == "on" {
			v = 1
		} else if val == "off" {
			v = -1
		}
		for i := 0; i < c09numFeat; i++ {
			if c09names[i] == name || name == "all" {
				w[i] = v
			}
		}
		return "cpu." + name + "=" + val, w
	}
	for _, v1 := range []string{"off", "on", "", "of", "offx"} {
		e, w := mk(n1, v1)
		envs, want = append(envs, e, "madvdontneed=1,"+e, e+",cpu.,x", "cpu,"+e+","), append(want, w, w, w, w)
		for k, n2 := range c09names {
			if nd.P(1) == 0 && k%3 != nd.P(0)%3 && n2 != "all" && n2 != "avx" {
				continue
			}
			for _, v2 := range []string{"off", "on"} {
				e2, w2 := mk(n2, v2)
				for i := range w2 {
					if w2[i] == 0 {
						w2[i] = w[i]
					}
				}
				envs, want = append(envs, e+","+e2), append(want, w2)
			}
		}
	}
	r := c09machine()
	cpu.Initialize("")
	base := c09state()
	_ = r
	for k, e := range envs {
		c09clear()
		cpu.Initialize(e)
		got := c09state()
		for i := range got {
			exp := base[i]
			if want[k][i] < 0 && i != 14 {
				exp = false
			}
			nd.AssertI(got[i] == exp, "features after the option string", k*100+i)
		}
	}
}

const c09numKernels = 16

func H_C09_kernels() {
	r := c09machine()
	// what real processors guarantee
	nd.Assume(r.max >= 7)
	nd.Assume(nd.Imp(r.ebx7&(1<<5) != 0, r.ecx1&(1<<28) != 0))
	nd.Assume(nd.Imp(r.ecx1&(1<<28) != 0, r.ecx1&(1<<19) != 0))
	nd.Assume(r.edx1&(1<<26) != 0)
	cpu.Initialize([]string{"", "cpu.avx=off", "cpu.avx2=off", "cpu.sse41=off"}[nd.P(2)])
	vReinit()
	can := c09announced(r)
	nd.Feature("AVX", can[2])
	nd.Feature("AVX2", can[3])
	nd.Feature("FMA", can[7])
	nd.Feature("POPCNT", can[9])
	nd.Feature("SSE3", can[10])
	nd.Feature("SSE4.1", can[11])
	nd.Feature("SSE4.2", can[12])
	nd.Feature("SSSE3", can[13])
	n := nd.P(1)
	b := nd.Bytes("b", n, 0)
	b2 := nd.Bytes("b2", 2*n, 1)
	f := make([]float32, n)
	for i := range f {
		f[i] = float32(i % 17)
	}
	f2 := nd.F32s("f2", n, 0)
	i16 := nd.I16s("i16", n, 0)
	c := nd.C64s("c", n, 0)
	c2 := nd.C64s("c2", n, 0)
	switch nd.P(0) {
	case 0:
		Ui8toi16(b, i16)
	case 1:
		Ui8toi16b(b, b2)
	case 2:
		Ui8tof32(b, f2)
	case 3:
		I8tof32(b, f2)
	case 4:
		Ui8toc64(b, c)
	case 5:
		F32toi16(f, i16, 2)
	case 6:
		F32toi16ble(f, b2, 2)
	case 7:
		I16ToBLE(i16, b2)
	case 8:
		I16bleToF32(b, f2, 2)
	case 9:
		I16bleToF64(b, nd.F64s("d", n, 0), 2)
	case 10:
		VScaleF32(f, f2, 3)
	case 11:
		VMaxF32(f)
	case 12:
		VMinF32(f)
	case 13:
		VMulC64xF32(c, c2, f)
	case 14:
		VAbsC64(c, f2)
	case 15:
		FastAtan2(1, 2)
		FastAtan2_2(1, 2)
	}
}

func c09eq(b []byte, s string) bool {
	if len(b) != len(s) {
		return false
	}
	e := true
	for i := range b {
		e = nd.And(e, b[i] == s[i])
	}
	return e
}

// H_C09_optbytes: one option whose name and value are arbitrary bytes.
func H_C09_optbytes() {
	key := nd.Bytes("key", nd.P(0), 0)
	val := nd.Bytes("val", nd.P(1), 0)
	for _, b := range key {
		nd.Assume(b != ',')
		nd.Assume(b != '=')
	}
	for _, b := range val {
		nd.Assume(b != ',')
	}
	c09machine()
	cpu.Initialize("")
	base := c09state()
	c09clear()
	cpu.Initialize("cpu." + string(key) + "=" + string(val))
	got := c09state()
	off := c09eq(val, "off")
	for i := range got {
		sel := nd.Or(c09eq(key, c09names[i]), c09eq(key, "all"))
		exp := nd.And(base[i], nd.Or(i == 14, !nd.And(sel, off)))
		nd.AssertI(got[i] == exp, "features after an arbitrary option", i)
	}
}
