package dsp

import (
	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	nd.Reg("C20", "step", H_C20_step, func(t int) [][]int {
		var r [][]int
		for kind := 0; kind < 2; kind++ {
			for n := 1; n <= vTier(t, 6, 9); n++ {
				for p := 0; p < n; p++ {
					for _, l := range []int{0, 2, 3} {
						for k := 0; k < n; k++ {
							if l <= n+1 && (t == 1 || n < 4 || (k+p+l)%n < 2) {
								r = append(r, []int{kind, n, k, l, p})
							}
						}
					}
				}
			}
			r = append(r, []int{kind, 32, 5, 3, 31}, []int{kind, 32, 31, 4, 0}, []int{kind, 50, 7, 0, 49})
		}
		return r
	})
}

// vTurn is d times e^(2 pi i b/n).
func vTurn(d complex128, b, n int) complex128 { return vBin([]complex128{d}, b, n) }

// H_C20_step: one call from any state in which the ring holds the last n
// samples, the newest at position p, and each accumulator is off its bin by
// any error d up to 1e-3: afterwards the ring holds the last n samples, each
// accumulator is off its bin by d turned, plus a rounding error of this step,
// and the result is the weighted sum of the bins so far off.
func H_C20_step() {
	kind, n, k, l, p := nd.P(0), nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	nb := l
	if l == 0 {
		nb = 1
	}
	old := nd.C128s("x", n, 0) // oldest first
	d := nd.C128s("d", nb, 0)
	v := nd.C128("v")
	w := nd.F64s("w", l, 0)
	x32 := nd.C64s("x32", n, 0)
	v32 := nd.C64("v32")
	w32 := nd.F32s("w32", l, 0)
	nd.Freeze()
	ring := make([]complex128, n)
	if kind == 1 {
		for i, s := range x32 {
			nd.Assume(nd.And(real(s) >= -1, real(s) <= 1))
			nd.Assume(nd.And(imag(s) >= -1, imag(s) <= 1))
			ring[i] = complex128(s)
		}
		nd.Assume(nd.And(real(v32) >= -1, real(v32) <= 1))
		nd.Assume(nd.And(imag(v32) >= -1, imag(v32) <= 1))
		v = complex128(v32)
		w = make([]float64, l)
		for i, s := range w32 {
			nd.Assume(nd.And(s >= -1, s <= 1))
			w[i] = float64(s)
		}
	} else {
		for i, s := range old {
			vWithin(real(s), 1)
			vWithin(imag(s), 1)
			ring[i] = s
		}
		vWithin(real(v), 1)
		vWithin(imag(v), 1)
		for _, s := range w {
			vWithin(s, 1)
		}
	}
	for _, e := range d {
		vWithin(real(e), 1e-3)
		vWithin(imag(e), 1e-3)
	}
	now := append(append([]complex128(nil), ring[1:]...), v)
	bin := func(i int) int {
		if l == 0 {
			return k
		}
		return vBinOf(k, n, l, i)
	}
	var out complex128
	acc := make([]complex128, nb)
	tol := 1e-15 * float64(n*n+5)
	if kind == 0 {
		f := NewSDFT(k, n, w)
		f.i = p
		for j, s := range ring {
			f.x[(p+1+j)%n] = s
		}
		for i := range f.s {
			f.s[i] = vBin(ring, bin(i), n) + d[i]
		}
		out = f.Filter(v)
		copy(acc, f.s)
		nd.EqI(int64(f.i), int64((p+1)%n), "position", p)
		for j, s := range now {
			nd.EqC128(f.x[(f.i+1+j)%n], s, "ring", j)
		}
	} else {
		tol = 1e-6 * float64(n)
		f := NewSDFT32(k, n, w32)
		f.i = p
		for j, s := range x32 {
			f.x[(p+1+j)%n] = s
		}
		for i := range f.s {
			f.s[i] = complex64(vBin(ring, bin(i), n) + d[i])
		}
		out = complex128(f.Filter(v32))
		for i := range f.s {
			acc[i] = complex128(f.s[i])
		}
		nd.EqI(int64(f.i), int64((p+1)%n), "position", p)
		for j, s := range append(append([]complex64(nil), x32[1:]...), v32) {
			nd.EqC64(f.x[(f.i+1+j)%n], s, "ring", j)
		}
	}
	var sum complex128
	for i := range acc {
		b := bin(i)
		want := vBin(now, b, n) + vTurn(d[i], b, n)
		vBoundC(acc[i], want, tol, "accumulator", i)
		if l > 0 {
			sum += complex(w[i]*real(want), w[i]*imag(want))
		} else {
			sum = want
		}
	}
	vBoundC(out, sum, tol*float64(nb+1), "result", 0)
}
