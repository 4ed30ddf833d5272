package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

// The portable version, set by c06_ref.go.
var pVScaleF32 = VScaleF32

func init() {
	nd.Reg("C06", "vscalef32", H_C06_vscalef32, func(t int) [][]int {
		return vJobs(vNumFlags, 4, 4, vTier(t, 135, 300), vTier(t, 136, 75), vTier(t, 3, 5))
	})
	small := func(t int) [][]int {
		var r [][]int
		for p := 0; p < 2; p++ {
			r = append(r, []int{p, vTier(t, 6, 20)})
		}
		return r
	}
	nd.Reg("C06", "vscalec64", H_C06_vscalec64, small)
	nd.Reg("C06", "vmulc64xf32", H_C06_vmulc64xf32, small)
	nd.Reg("C06", "vmulc64", H_C06_vmulc64, small)
	nd.Reg("C06", "vaddf32", H_C06_vaddf32, small)
	nd.Reg("C06", "vaddc64", H_C06_vaddc64, small)
	nd.Reg("C06", "vabsc64", H_C06_vabsc64, small)
}

func H_C06_vscalef32() {
	vSetFlags(nd.P(0))
	f := VScaleF32
	if nd.P(0) < 0 {
		f = pVScaleF32
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	scale := nd.F32("scale")
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			in := nd.F32s("in", ni, (al+4*n)%32)
			nd.Freeze()
			out := nd.F32s("out", no, al)
			old := append([]float32(nil), out...)
			f(in, out, scale)
			for i := range out {
				if i < n {
					nd.Eq32(out[i], in[i]*scale, "VScaleF32 sample", n*1000+i)
				} else {
					nd.Eq32(out[i], old[i], "VScaleF32 beyond the end", n*1000+i)
				}
			}
		}
		// in place
		if n%5 == 3 {
			io := nd.F32s("io", n, al)
			old := append([]float32(nil), io...)
			f(io, io, scale)
			for i := range io {
				nd.Eq32(io[i], old[i]*scale, "VScaleF32 in place", n*1000+i)
			}
		}
	}
}

// c06lens enumerates all triples of lengths up to m.
func c06lens(m int, f func(a, b, c int)) {
	for a := 0; a <= m; a++ {
		for b := 0; b <= m; b++ {
			f(a, b, a+1)
			if b < a {
				f(a, a, b)
			}
		}
	}
	for _, n := range []int{7, 8, 9, 11, 12, 13, 15, 16, 17, 19, 23, 31, 32, 33, 63, 64, 65, 66, 67, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1030} {
		f(n, n, n)
		if n < 300 {
			f(n, n+3, n+1)
			f(n+5, n, n+1)
			f(n+1, n+2, n)
		}
	}
}

func cmin(a ...int) int {
	m := a[0]
	for _, x := range a {
		if x < m {
			m = x
		}
	}
	return m
}

func H_C06_vscalec64() {
	inplace, m := nd.P(0), nd.P(1)
	scale := nd.F32("scale")
	c06lens(m, func(a, b, _ int) {
		in := nd.C64s("in", a, 0)
		src := append([]complex64(nil), in...)
		out := in
		if inplace == 0 {
			nd.Freeze()
			out = nd.C64s("out", b, 0)
		}
		old := append([]complex64(nil), out...)
		VScaleC64(in, out, scale)
		for i := range out {
			if i < a {
				nd.Eq32(real(out[i]), real(src[i])*scale, "VScaleC64 re", i)
				nd.Eq32(imag(out[i]), imag(src[i])*scale, "VScaleC64 im", i)
			} else {
				nd.EqC64(out[i], old[i], "VScaleC64 beyond the end", i)
			}
		}
	})
}

func H_C06_vmulc64xf32() {
	inplace, m := nd.P(0), nd.P(1)
	c06lens(m, func(a, b, c int) {
		in := nd.C64s("in", a, 0)
		src := append([]complex64(nil), in...)
		out := in
		if inplace == 0 {
			nd.Freeze()
			out = nd.C64s("out", b, 0)
		}
		old := append([]complex64(nil), out...)
		mul := nd.F32s("mul", c, 0)
		nd.Freeze()
		VMulC64xF32(in, out, mul)
		for i := range out {
			if i < cmin(a, b, c) || inplace == 1 && i < c {
				nd.Eq32(real(out[i]), real(src[i])*mul[i], "VMulC64xF32 re", i)
				nd.Eq32(imag(out[i]), imag(src[i])*mul[i], "VMulC64xF32 im", i)
			} else {
				nd.EqC64(out[i], old[i], "VMulC64xF32 beyond the end", i)
			}
		}
	})
}

func H_C06_vmulc64() {
	inplace, m := nd.P(0), nd.P(1)
	c06lens(m, func(a, b, c int) {
		in := nd.C64s("in", a, 0)
		src := append([]complex64(nil), in...)
		out := in
		if inplace == 0 {
			nd.Freeze()
			out = nd.C64s("out", b, 0)
		}
		old := append([]complex64(nil), out...)
		mul := nd.C64s("mul", c, 0)
		nd.Freeze()
		VMulC64(in, out, mul)
		for i := range out {
			if i < cmin(a, b, c) || inplace == 1 && i < c {
				// Go rounds the product once, from double precision; single
				// precision throughout is as good a complex product.
				a, b := src[i], mul[i]
				re := real(a)*real(b) - imag(a)*imag(b)
				im := real(a)*imag(b) + imag(a)*real(b)
				nd.EqC64Or(out[i], a*b, complex(re, im), "VMulC64", i)
			} else {
				nd.EqC64(out[i], old[i], "VMulC64 beyond the end", i)
			}
		}
	})
}

func H_C06_vaddf32() {
	inplace, m := nd.P(0), nd.P(1)
	c06lens(m, func(a, b, _ int) {
		in := nd.F32s("in", a, 0)
		src := append([]float32(nil), in...)
		out := in
		if inplace == 0 {
			nd.Freeze()
			out = nd.F32s("out", b, 0)
		}
		old := append([]float32(nil), out...)
		VAddF32(in, out)
		for i := range out {
			if i < a {
				nd.Eq32(out[i], old[i]+src[i], "VAddF32", i)
			} else {
				nd.Eq32(out[i], old[i], "VAddF32 beyond the end", i)
			}
		}
	})
}

func H_C06_vaddc64() {
	inplace, m := nd.P(0), nd.P(1)
	c06lens(m, func(a, b, _ int) {
		in := nd.C64s("in", a, 0)
		src := append([]complex64(nil), in...)
		out := in
		if inplace == 0 {
			nd.Freeze()
			out = nd.C64s("out", b, 0)
		}
		old := append([]complex64(nil), out...)
		VAddC64(in, out)
		for i := range out {
			if i < a {
				nd.EqC64(out[i], old[i]+src[i], "VAddC64", i)
			} else {
				nd.EqC64(out[i], old[i], "VAddC64 beyond the end", i)
			}
		}
	})
}

func H_C06_vabsc64() {
	m := nd.P(1)
	if nd.P(0) == 1 {
		m += 9
	}
	c06lens(m, func(a, b, _ int) {
		if nd.P(0) == 1 && a != m && b != m || a > 70 && a != 257 {
			return
		}
		in := nd.C64s("in", a, 0)
		nd.Freeze()
		out := nd.F32s("out", b, 0)
		old := append([]float32(nil), out...)
		VAbsC64(in, out)
		for i := range out {
			if i < a {
				re, im := real(in[i]), imag(in[i])
				nd.Eq32(out[i], float32(math.Sqrt(float64(re*re+im*im))), "VAbsC64", i)
			} else {
				nd.Eq32(out[i], old[i], "VAbsC64 beyond the end", i)
			}
		}
	})
}
