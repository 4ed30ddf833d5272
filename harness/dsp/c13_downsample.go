package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable versions, set by c13_ref.go; the exported filters call
// whatever the processor has.
var (
	pDownC = func(f *LowPassDownsampleComplexFilter, s []complex64) []complex64 { return f.Filter(s) }
	pDownR = func(f *LowPassDownsampleRationalFilter, s []float32) []float32 { return f.Filter(s) }
)

func init() {
	nd.Reg("C13", "complex", H_C13_complex, func(t int) [][]int {
		var r [][]int
		n := vTier(t, 9, 17)
		for d := 1; d <= 7; d++ {
			for a := 0; a <= n; a += vTier(t, 1, 1) {
				r = append(r, []int{n, a, d})
			}
		}
		return append(r, []int{vTier(t, 60, 200), 27, 10}, []int{40, 33, 16}, []int{20, 3, 100})
	})
	nd.Reg("C13", "retuned", H_C13_retuned, func(t int) [][]int {
		return [][]int{{2, 3, 6, 1}, {3, 2, 6, 1}, {5, 1, 10, 3}, {4, 7, 8, 3}, {1, 4, 3, 2}}
	})
	nd.Reg("C13", "complex-any", H_C13_complexAny, func(t int) [][]int {
		return [][]int{{vTier(t, 8, 16)}}
	})
	nd.Reg("C13", "rational", H_C13_rational, func(t int) [][]int {
		var r [][]int
		n := vTier(t, 9, 17)
		for fast := 1; fast <= 7; fast++ {
			for slow := 1; slow <= fast; slow++ {
				r = append(r, []int{n, (fast*3 + slow) % (n + 1), fast, slow})
			}
		}
		return append(r, []int{90, 31, 240000, 48000}, []int{80, 41, 1280000, 44100}, []int{64, 20, 48000, 44100})
	})
	nd.Reg("C13", "rational-any", H_C13_rationalAny, func(t int) [][]int {
		return [][]int{{vTier(t, 5, 7), 2}, {vTier(t, 5, 7), 0}}
	})
}

// H_C13_complex: group sums for one factor, however the stream is cut.
func H_C13_complex() {
	n, a, d := nd.P(0), nd.P(1), nd.P(2)
	x := nd.C64s("x", n, 0)
	nd.Freeze()
	one := append([]complex64(nil), x...)
	f := LowPassDownsampleComplexFilter{Downsample: d}
	y := pDownC(&f, one)
	nd.EqI(int64(len(y)), int64(n/d), "number of outputs", d)
	if len(y) != n/d {
		return
	}
	for i := range y {
		var re, im, sr, si float64
		for _, v := range x[i*d : i*d+d] {
			re += float64(real(v))
			im += float64(imag(v))
			sr += vAbs(float64(real(v)))
			si += vAbs(float64(imag(v)))
		}
		nd.Formula(float64(real(y[i])), re, sr, 1e-4, "group sum re", i)
		nd.Formula(float64(imag(y[i])), im, si, 1e-4, "group sum im", i)
	}
	g := LowPassDownsampleComplexFilter{Downsample: d}
	p := append([]complex64(nil), x[:a]...)
	q := append([]complex64(nil), x[a:]...)
	y1 := pDownC(&g, p)
	nd.Assert(len(y1) <= len(p), "no more outputs than inputs")
	y2 := pDownC(&g, q)
	nd.Assert(len(y2) <= len(q), "no more outputs than inputs")
	nd.EqI(int64(len(y1)+len(y2)), int64(n/d), "number of outputs of a cut stream", a)
	for i := range y {
		if i < len(y1) {
			nd.EqC64(y1[i], y[i], "cut stream", i)
		} else if i-len(y1) < len(y2) {
			nd.EqC64(y2[i-len(y1)], y[i], "cut stream", i)
		}
	}
}

// H_C13_retuned: factors changed between two calls, at the end of a group,
// hold from there on.
func H_C13_retuned() {
	d, e, a, slow := nd.P(0), nd.P(1), nd.P(2), nd.P(3)
	n := 14
	x, s := nd.C64s("x", a+n, 0), nd.F32s("s", a+n, 0)
	f, g := LowPassDownsampleComplexFilter{Downsample: d}, LowPassDownsampleComplexFilter{Downsample: e}
	pDownC(&f, append([]complex64(nil), x[:a/d*d]...))
	f.Downsample = e
	y := pDownC(&f, append([]complex64(nil), x[a:]...))
	z := pDownC(&g, append([]complex64(nil), x[a:]...))
	nd.EqI(int64(len(y)), int64(len(z)), "retuned outputs", e)
	for i := 0; i < len(y) && i < len(z); i++ {
		nd.EqC64(y[i], z[i], "retuned", i)
	}
	// a*slow is a multiple of the first ratio's denominator
	h := LowPassDownsampleRationalFilter{Fast: slow * a, Slow: slow}
	k := LowPassDownsampleRationalFilter{Fast: e + slow, Slow: slow}
	pDownR(&h, append([]float32(nil), s[:a]...))
	h.Fast = e + slow
	p := pDownR(&h, append([]float32(nil), s[a:]...))
	q := pDownR(&k, append([]float32(nil), s[a:]...))
	nd.EqI(int64(len(p)), int64(len(q)), "retuned rational outputs", e)
	for i := 0; i < len(p) && i < len(q); i++ {
		nd.Eq32(p[i], q[i], "retuned rational", i)
	}
}

// H_C13_complexAny: the number of outputs for every factor.
func H_C13_complexAny() {
	n := nd.P(0)
	d := int(nd.I32("d"))
	nd.Assume(d >= 1)
	f := LowPassDownsampleComplexFilter{Downsample: d}
	done := 0
	for k := 1; k <= n; k++ {
		s := make([]complex64, 1)
		done += len(pDownC(&f, s))
		nd.EqI(int64(done), int64(k/d), "outputs so far", k)
	}
}

// H_C13_rational: one ratio, every content, a cut stream.
func H_C13_rational() {
	n, a, fast, slow := nd.P(0), nd.P(1), nd.P(2), nd.P(3)
	x := nd.F32s("x", n, 0)
	nd.Freeze()
	f := LowPassDownsampleRationalFilter{Fast: fast, Slow: slow}
	y := pDownR(&f, append([]float32(nil), x...))
	want := n * slow / fast
	nd.EqI(int64(len(y)), int64(want), "number of outputs", fast)
	if len(y) != want {
		return
	}
	at := 0
	ratio := float64(slow) / float64(fast)
	for i := range y {
		// the output appears at the first input k with k*slow >= (i+1)*fast
		end := ((i+1)*fast + slow - 1) / slow
		var sum, abs float64
		for _, v := range x[at:end] {
			sum += float64(v)
			abs += vAbs(float64(v))
		}
		at = end
		vRatio(float64(y[i]), sum, ratio, abs*ratio, i)
	}
	g := LowPassDownsampleRationalFilter{Fast: fast, Slow: slow}
	y1 := pDownR(&g, append([]float32(nil), x[:a]...))
	nd.Assert(len(y1) <= a, "no more outputs than inputs")
	y2 := pDownR(&g, append([]float32(nil), x[a:]...))
	nd.Assert(len(y2) <= n-a, "no more outputs than inputs")
	nd.EqI(int64(len(y1)+len(y2)), int64(want), "number of outputs of a cut stream", a)
	for i := range y {
		if i < len(y1) {
			nd.Eq32(y1[i], y[i], "cut stream", i)
		} else if i-len(y1) < len(y2) {
			nd.Eq32(y2[i-len(y1)], y[i], "cut stream", i)
		}
	}
}

// vRatio: got = sum*ratio, the ratio being rounded to float32 at most.
func vRatio(got, sum, ratio, scale float64, i int) {
	nd.Formula(got, sum*float64(float32(ratio)), scale, 1e-4, "sum times Slow/Fast", i)
}

// H_C13_rationalAny: output counts for every pair Slow <= Fast.
func H_C13_rationalAny() {
	n, a := nd.P(0), nd.P(1)
	fast, slow := int(nd.I32("fast")), int(nd.I32("slow"))
	nd.Assume(nd.And(slow >= 1, slow <= fast))
	f := LowPassDownsampleRationalFilter{Fast: fast, Slow: slow}
	var acc, due int64
	step := func() {
		acc += int64(slow)
		out := acc >= int64(fast)
		acc = nd.IteI(out, acc-int64(fast), acc)
		due += nd.IteI(out, 1, 0)
	}
	var done int
	if a > 0 {
		for i := 0; i < a; i++ {
			step()
		}
		done = len(pDownR(&f, make([]float32, a)))
		nd.EqI(int64(done), due, "outputs of the first call", a)
	}
	for k := a + 1; k <= n; k++ {
		step()
		done += len(pDownR(&f, make([]float32, 1)))
		nd.EqI(int64(done), due, "outputs so far", k)
	}
}
