package dsp

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	jobs := func(t int) [][]int {
		var r [][]int
		n := vTier(t, 6, 10)
		for a := 0; a <= n; a++ {
			r = append(r, []int{n, a})
		}
		return append(r, []int{vTier(t, 19, 40), 8}, []int{vTier(t, 18, 35), 17})
	}
	nd.Reg("C16", "filter", H_C16_filter, jobs)
	nd.Reg("C16", "filterf32", H_C16_filterF32, jobs)
	nd.Reg("C16", "long", H_C16_long, func(t int) [][]int {
		return [][]int{{130}, {257}, {vTier(t, 515, 4100)}}
	})
	nd.Reg("C16", "retuned", H_C16_retuned, func(t int) [][]int {
		var r [][]int
		for k := 0; k < 2; k++ {
			for a := 0; a <= vTier(t, 3, 6); a++ {
				r = append(r, []int{k, vTier(t, 6, 12), a})
			}
		}
		return r
	})
}

func c16filter() BiQuadFilter {
	f := BiQuadFilter{
		B0: nd.F64("b0"), B1: nd.F64("b1"), B2: nd.F64("b2"),
		A0: nd.F64("a0"), A1: nd.F64("a1"), A2: nd.F64("a2"),
	}
	nd.Assume(f.A0 != 0)
	return f
}

// c16want is the right-hand side of the difference equation and the sum of
// the magnitudes of its terms.
func c16want(f *BiQuadFilter, x, y []float64, n int) (w, sc float64) {
	at := func(s []float64, i int) float64 {
		if i < 0 {
			return 0
		}
		return s[i]
	}
	w = (f.B0*x[n] + f.B1*at(x, n-1) + f.B2*at(x, n-2) - f.A1*at(y, n-1) - f.A2*at(y, n-2)) / f.A0
	sc = (vAbs(f.B0*x[n]) + vAbs(f.B1*at(x, n-1)) + vAbs(f.B2*at(x, n-2)) + vAbs(f.A1*at(y, n-1)) + vAbs(f.A2*at(y, n-2))) / vAbs(f.A0)
	return
}

// H_C16_filter: the recursion, cutting at any point, in-place use and
// independence.
func H_C16_filter() {
	n, a := nd.P(0), nd.P(1)
	c := c16filter()
	x := nd.F64s("x", n, 0)
	nd.Freeze()
	f, g, h, other := c, c, c, c
	y := make([]float64, n)
	f.Filter(x, y)
	tame := nd.And(vTame(x...), vTame(c.B0, c.B1, c.B2, c.A0, c.A1, c.A2))
	for i := range y {
		w, sc := c16want(&c, x, y, i)
		nd.Formula(y[i], w, vScale(tame, sc), 1e-6, "difference equation", i)
	}
	y2 := make([]float64, n)
	g.Filter(x[:a], y2[:a])
	other.Filter(x, make([]float64, n))
	g.Filter(x[a:], y2[a:])
	p := append([]float64(nil), x...)
	h.Filter(p, p)
	for i := range y {
		nd.Eq64(y2[i], y[i], "cut stream", i)
		nd.Eq64(p[i], y[i], "in place", i)
	}
}

// H_C16_retuned: coefficients changed between two calls hold from there on.
func H_C16_retuned() {
	k, n, a := nd.P(0), nd.P(1), nd.P(2)
	c := c16filter()
	d := BiQuadFilter{
		B0: nd.F64("d0"), B1: nd.F64("d1"), B2: nd.F64("d2"),
		A0: nd.F64("e0"), A1: nd.F64("e1"), A2: nd.F64("e2"),
	}
	nd.Assume(d.A0 != 0)
	f := c
	x, y := make([]float64, n), make([]float64, n)
	run := func(from, to int) {
		if k == 0 {
			f.Filter(x[from:to], y[from:to])
			return
		}
		// FilterF32 against Filter from the same state
		o, w := make([]float32, to-from), make([]float32, to-from)
		for i := range w {
			w[i] = float32(x[from+i])
		}
		g := f
		g.Filter(x[from:to], y[from:to])
		f.FilterF32(w, o)
		for i := range o {
			nd.Eq32(o[i], float32(y[from+i]), "retuned, single precision", from+i)
		}
	}
	if k == 0 {
		copy(x, nd.F64s("x", n, 0))
	} else {
		for i, v := range nd.F32s("x", n, 0) {
			x[i] = float64(v)
		}
	}
	run(0, a)
	f.B0, f.B1, f.B2, f.A0, f.A1, f.A2 = d.B0, d.B1, d.B2, d.A0, d.A1, d.A2
	run(a, n)
	if k == 1 {
		return
	}
	tame := nd.And(vTame(x...), vTame(c.B0, c.B1, c.B2, c.A0, c.A1, c.A2))
	tame = nd.And(tame, vTame(d.B0, d.B1, d.B2, d.A0, d.A1, d.A2))
	for i := a; i < n; i++ {
		w, sc := c16want(&d, x, y, i)
		nd.Formula(y[i], w, vScale(tame, sc), 1e-6, "difference equation after retuning", i)
	}
}

// H_C16_filterF32: the recursion in double precision, rounded on output.
func H_C16_filterF32() {
	n, a := nd.P(0), nd.P(1)
	c := c16filter()
	x := nd.F32s("x", n, 0)
	nd.Freeze()
	xd := make([]float64, n)
	for i, v := range x {
		xd[i] = float64(v)
	}
	f, g, h, d := c, c, c, c
	y := make([]float32, n)
	f.FilterF32(x, y)
	yd := make([]float64, n)
	d.Filter(xd, yd)
	sum := 0.0
	tame := nd.And(vTame32(x...), vTame(c.B0, c.B1, c.B2, c.A0, c.A1, c.A2))
	for i := range y {
		// one rounding to float32; anything kept in single precision between
		// samples shows up as more than that
		_, sc := c16want(&c, xd, yd, i)
		sum = sum*(1+(vAbs(c.A1)+vAbs(c.A2))/vAbs(c.A0)) + sc
		nd.Close(float64(y[i]), float64(float32(yd[i])), vScale(tame, vAbs(yd[i])*1.3e-7+sum*1e-13+1e-40), "double recursion rounded once", i)
	}
	y2 := make([]float32, n)
	g.FilterF32(x[:a], y2[:a])
	g.FilterF32(x[a:], y2[a:])
	p := append([]float32(nil), x...)
	h.FilterF32(p, p)
	for i := range y {
		nd.Eq32(y2[i], y[i], "cut stream", i)
		nd.Eq32(p[i], y[i], "in place", i)
	}
}

// H_C16_long: a long call is the same as one call per sample.
func H_C16_long() {
	n := nd.P(0)
	c := c16filter()
	f, g, h, k := c, c, c, c
	x, s := nd.F64s("x", n, 0), nd.F32s("s", n, 0)
	nd.Freeze()
	y, z := make([]float64, n), make([]float64, n)
	u, v := make([]float32, n), make([]float32, n)
	f.Filter(x, y)
	h.FilterF32(s, u)
	for i := range x {
		g.Filter(x[i:i+1], z[i:i+1])
		k.FilterF32(s[i:i+1], v[i:i+1])
		nd.Eq64(z[i], y[i], "long call", i)
		nd.Eq32(v[i], u[i], "long call, single precision", i)
	}
}
