package dsp

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	jobs := func(t int) [][]int {
		var r [][]int
		n := vTier(t, 6, 10)
		for a := 0; a <= n; a++ {
			for b := a; b <= n; b += 2 {
				r = append(r, []int{n, a, b})
			}
		}
		return append(r, []int{vTier(t, 19, 40), 8, 8}, []int{vTier(t, 18, 35), 0, 17}, []int{vTier(t, 18, 35), 17, 17})
	}
	nd.Reg("C18", "dc", H_C18_dc, jobs)
	nd.Reg("C18", "dc32", H_C18_dc32, jobs)
	nd.Reg("C18", "long", H_C18_long, func(t int) [][]int {
		return [][]int{{130}, {257}, {vTier(t, 515, 4100)}}
	})
}

// H_C18_dc: Filter on x[:a], FilterOne on x[a:b], Filter in place on x[b:]
// against one call, and the recursion itself.
func H_C18_dc() {
	n, a, b := nd.P(0), nd.P(1), nd.P(2)
	x := nd.F64s("x", n, 0)
	nd.Freeze()
	al := nd.F64("a")
	f, g, h := NewDCFilter(al), NewDCFilter(al), NewDCFilter(al)
	y := make([]float64, n)
	f.Filter(x, y)
	w, sc := 0.0, 0.0
	tame := nd.And(vTame(x...), vTame(al))
	for i, v := range x {
		w1 := v + al*w
		sc = vAbs(v) + (vAbs(al)+2)*sc
		nd.Formula(y[i], w1-w, vScale(tame, sc), 1e-6, "recursion", i)
		w = w1
	}
	z := make([]float64, n)
	g.Filter(x[:a], z[:a])
	h.Filter(x, make([]float64, n))
	for i := a; i < b; i++ {
		z[i] = g.FilterOne(x[i])
	}
	copy(z[b:], x[b:])
	g.Filter(z[b:], z[b:])
	for i := range y {
		nd.Eq64(z[i], y[i], "driven differently", i)
	}
}

func H_C18_dc32() {
	n, a, b := nd.P(0), nd.P(1), nd.P(2)
	x := nd.F32s("x", n, 0)
	nd.Freeze()
	al := nd.F32("a")
	f, g, h := NewDCFilter32(al), NewDCFilter32(al), NewDCFilter32(al)
	y := make([]float32, n)
	f.Filter(x, y)
	w, sc, ad := 0.0, 0.0, float64(al)
	tame := nd.And(vTame32(x...), vTame(ad))
	for i, v := range x {
		w1 := float64(v) + ad*w
		sc = vAbs(float64(v)) + (vAbs(ad)+2)*sc
		nd.Formula(float64(y[i]), w1-w, vScale(tame, sc), 1e-4, "recursion", i)
		w = w1
	}
	z := make([]float32, n)
	g.Filter(x[:a], z[:a])
	h.Filter(x, make([]float32, n))
	for i := a; i < b; i++ {
		z[i] = g.FilterOne(x[i])
	}
	copy(z[b:], x[b:])
	g.Filter(z[b:], z[b:])
	for i := range y {
		nd.Eq32(z[i], y[i], "driven differently", i)
	}
}

// H_C18_long: a long call is the same as sample by sample.
func H_C18_long() {
	n := nd.P(0)
	x, s := nd.F64s("x", n, 0), nd.F32s("s", n, 0)
	nd.Freeze()
	al, bl := nd.F64("a"), nd.F32("b")
	f, g, h, k := NewDCFilter(al), NewDCFilter(al), NewDCFilter32(bl), NewDCFilter32(bl)
	y, u := make([]float64, n), make([]float32, n)
	f.Filter(x, y)
	h.Filter(s, u)
	for i := range x {
		nd.Eq64(g.FilterOne(x[i]), y[i], "long call", i)
		nd.Eq32(k.FilterOne(s[i]), u[i], "long call, single precision", i)
	}
}
