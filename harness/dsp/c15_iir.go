package dsp

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	jobs := func(t int) [][]int {
		var r [][]int
		for m := 0; m <= vTier(t, 3, 5); m++ {
			n := m + vTier(t, 3, 4)
			for a := 0; a <= n; a += 2 {
				r = append(r, []int{m, n, a})
			}
		}
		return append(r, []int{1, vTier(t, 18, 35), 9}, []int{2, vTier(t, 10, 20), 9})
	}
	nd.Reg("C15", "real", H_C15_real, jobs)
	nd.Reg("C15", "complex32", H_C15_complex32, jobs)
	nd.Reg("C15", "complex", H_C15_complex, jobs)
	nd.Reg("C15", "panics", H_C15_panics, func(t int) [][]int {
		var r [][]int
		for i := 0; i <= 3; i++ {
			for j := 0; j <= 3; j++ {
				if i != j || i == 0 {
					r = append(r, []int{i, j})
				}
			}
		}
		return r
	})
}

// vIIR checks one filter type; the filter sees complex numbers or just their
// real parts. mk builds a filter and gives its Filter method.
func vIIR(x []complex128, cut int, b, a []float64, tol float64, mk func() func(in []complex128) []complex128) {
	f := mk()
	y := f(x)
	nd.EqI(int64(len(y)), int64(len(x)), "outputs", 0)
	tame := nd.And(vTame(a...), vTame(b...))
	for _, v := range x {
		tame = nd.And(tame, vTame(real(v), imag(v)))
	}
	for n := range x {
		var re, im, sc float64
		for k := 0; k < len(b) && k <= n; k++ {
			re += b[k] * real(x[n-k])
			im += b[k] * imag(x[n-k])
			sc += vAbs(b[k])*(vAbs(real(x[n-k]))+vAbs(imag(x[n-k])))
			if k > 0 {
				re -= a[k] * real(y[n-k])
				im -= a[k] * imag(y[n-k])
				sc += vAbs(a[k])*(vAbs(real(y[n-k]))+vAbs(imag(y[n-k])))
			}
		}
		vFormulaC(y[n], complex(re/a[0], im/a[0]), vScale(tame, sc/vAbs(a[0])), tol, "difference equation", n)
	}
	// the same stream in two calls, another filter running in between
	g, h := mk(), mk()
	y1 := g(x[:cut])
	h(x)
	y2 := g(x[cut:])
	for n := range x {
		var v complex128
		if n < cut {
			v = y1[n]
		} else {
			v = y2[n-cut]
		}
		nd.EqC128(v, y[n], "cut stream", n)
	}
}

func vKept(got, want []float64, msg string) {
	for i := range want {
		nd.Eq64(got[i], want[i], msg, i)
	}
}

func vKept32(got, want []float32, msg string) {
	for i := range want {
		nd.Eq32(got[i], want[i], msg, i)
	}
}

func H_C15_real() {
	m, n, cut := nd.P(0), nd.P(1), nd.P(2)
	b, a := nd.F64s("b", m+1, 0), nd.F64s("a", m+1, 0)
	x := nd.F64s("x", n, 0)
	nd.Assume(a[0] != 0)
	xc := make([]complex128, n)
	for i, v := range x {
		xc[i] = complex(v, 0)
	}
	b0, a0 := append([]float64(nil), b...), append([]float64(nil), a...)
	vIIR(xc, cut, b0, a0, 1e-6, func() func([]complex128) []complex128 {
		f := NewIIRFilter(b, a)
		vKept(b, b0, "the caller's b")
		vKept(a, a0, "the caller's a")
		return func(in []complex128) []complex128 {
			for i := range b {
				b[i], a[i] = 77, 78 // the filter has its own
			}
			s, o := make([]float64, len(in)), make([]float64, len(in))
			for i, v := range in {
				s[i] = real(v)
			}
			f.Filter(s, o)
			r := make([]complex128, len(in))
			for i, v := range o {
				r[i] = complex(v, 0)
			}
			copy(b, b0)
			copy(a, a0)
			return r
		}
	})
}

func H_C15_complex() {
	m, n, cut := nd.P(0), nd.P(1), nd.P(2)
	b, a := nd.F64s("b", m+1, 0), nd.F64s("a", m+1, 0)
	x := nd.C128s("x", n, 0)
	nd.Assume(a[0] != 0)
	b0, a0 := append([]float64(nil), b...), append([]float64(nil), a...)
	vIIR(x, cut, b0, a0, 1e-6, func() func([]complex128) []complex128 {
		f := NewComplexIIRFilter(b, a)
		vKept(b, b0, "the caller's b")
		vKept(a, a0, "the caller's a")
		return func(in []complex128) []complex128 {
			for i := range b {
				b[i], a[i] = 77, 78
			}
			o := make([]complex128, len(in))
			f.Filter(append([]complex128(nil), in...), o)
			copy(b, b0)
			copy(a, a0)
			return o
		}
	})
}

func H_C15_complex32() {
	m, n, cut := nd.P(0), nd.P(1), nd.P(2)
	b, a := nd.F32s("b", m+1, 0), nd.F32s("a", m+1, 0)
	x := nd.C64s("x", n, 0)
	nd.Assume(a[0] != 0)
	xc := make([]complex128, n)
	for i, v := range x {
		xc[i] = complex128(v)
	}
	b0, a0 := append([]float32(nil), b...), append([]float32(nil), a...)
	bd, ad := make([]float64, m+1), make([]float64, m+1)
	for i := range b {
		bd[i], ad[i] = float64(b[i]), float64(a[i])
	}
	vIIR(xc, cut, bd, ad, 1e-2, func() func([]complex128) []complex128 {
		f := NewComplexIIRFilter32(b, a)
		vKept32(b, b0, "the caller's b")
		vKept32(a, a0, "the caller's a")
		return func(in []complex128) []complex128 {
			for i := range b {
				b[i], a[i] = 77, 78
			}
			s, o := make([]complex64, len(in)), make([]complex64, len(in))
			for i, v := range in {
				s[i] = complex64(v)
			}
			f.Filter(s, o)
			r := make([]complex128, len(in))
			for i, v := range o {
				r[i] = complex128(v)
			}
			copy(b, b0)
			copy(a, a0)
			return r
		}
	})
}

func H_C15_panics() {
	i, j := nd.P(0), nd.P(1)
	nd.Assert(nd.Try(func() { NewIIRFilter(make([]float64, i), make([]float64, j)) }), "NewIIRFilter accepts bad coefficients")
	nd.Assert(nd.Try(func() { NewComplexIIRFilter(make([]float64, i), make([]float64, j)) }), "NewComplexIIRFilter accepts bad coefficients")
	nd.Assert(nd.Try(func() { NewComplexIIRFilter32(make([]float32, i), make([]float32, j)) }), "NewComplexIIRFilter32 accepts bad coefficients")
}
