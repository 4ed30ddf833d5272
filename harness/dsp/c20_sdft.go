package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	nd.Reg("C20", "stream", H_C20_stream, func(t int) [][]int {
		var r [][]int
		for kind := 0; kind < 2; kind++ {
			for n := 1; n <= vTier(t, 8, 12); n++ {
				for k := 0; k < n; k++ {
					for _, w := range []int{0, 1, 2, 3, 5, n} {
						if w == n && (n <= 3 || n == 5) || w > n+1 || t == 0 && n > 5 && (k+w+n)%3 != 0 {
							continue
						}
						m := 2*n + 3
						if n > 5 && w > 0 {
							m = n + 2
						}
						r = append(r, []int{kind, n, k, w, m})
					}
				}
			}
			for _, n := range []int{16, 25} {
				r = append(r, []int{kind, n, 1, 0, 2*n + 1}, []int{kind, n, n / 2, 0, n}, []int{kind, n, n - 1, 0, n + 1})
			}
		}
		return r
	})
}

// vBin is bin b of the DFT of the last n samples of x, the newest with phase
// factor e^(2 pi i b/n).
func vBin(x []complex128, b, n int) complex128 {
	var re, im float64
	for j := 0; j < n && j < len(x); j++ {
		v := x[len(x)-1-j]
		a := 2 * math.Pi * float64(b*(j+1)%n) / float64(n)
		c, s := math.Cos(a), math.Sin(a)
		re += real(v)*c - imag(v)*s
		im += real(v)*s + imag(v)*c
	}
	return complex(re, im)
}

func vBinOf(k, n, l, i int) int {
	return ((k-l/2+i)%n + n) % n
}

// vWeighted sums the bins about k.
func vWeighted(x []complex128, k, n int, w []float64) complex128 {
	if len(w) == 0 {
		return vBin(x, k, n)
	}
	var re, im float64
	for i, v := range w {
		b := vBin(x, vBinOf(k, n, len(w), i), n)
		re += v * real(b)
		im += v * imag(b)
	}
	return complex(re, im)
}

// vOtherSDFTs has filters of other bins, sizes and windows around.
func vOtherSDFTs(k, n, l int) {
	for _, o := range [][3]int{{(k + 1) % n, n, l}, {k, n + 1, l}, {k, n, l + 1}, {k, n, 1}} {
		w, w32 := make([]float64, o[2]), make([]float32, o[2])
		for i := range w {
			w[i], w32[i] = 1+float64(i), 2-float32(i)
		}
		if o[0] > 0 && o[2]/2 < o[1] {
			f, f32 := NewSDFT(o[0], o[1], w), NewSDFT32(o[0], o[1], w32)
			f.Filter(3)
			f32.Filter(5)
		}
	}
}

// H_C20_stream: every output of a new filter over m samples, every window of
// l weights in [-1,1].
func H_C20_stream() {
	kind, n, k, l, m := nd.P(0), nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	out := make([]complex128, m)
	x := make([]complex128, m)
	w := make([]float64, l)
	vOtherSDFTs(k, n, l)
	if kind == 0 {
		w := nd.F64s("w", l, 0)
		in := nd.C128s("x", m, 0)
		nd.Freeze()
		own := append([]float64(nil), w...)
		f := NewSDFT(k, n, own)
		for i := range own {
			own[i] = 9 // the slice is the caller's to use again
		}
		for i, v := range in {
			vWithin(real(v), 1)
			vWithin(imag(v), 1)
			x[i] = v
			out[i] = f.Filter(v)
		}
		for _, v := range w {
			vWithin(v, 1)
		}
		for i := range out {
			vBoundC(out[i], vWeighted(x[:i+1], k, n, w), 1e-14*float64(m*n*(l+1)), "bins", i)
		}
		return
	}
	w32 := nd.F32s("w", l, 0)
	in := nd.C64s("x", m, 0)
	nd.Freeze()
	own := append([]float32(nil), w32...)
	f := NewSDFT32(k, n, own)
	for i := range own {
		own[i] = 9
	}
	for i, v := range in {
		nd.Assume(nd.And(real(v) >= -1, real(v) <= 1))
		nd.Assume(nd.And(imag(v) >= -1, imag(v) <= 1))
		x[i] = complex128(v)
		out[i] = complex128(f.Filter(v))
	}
	for i, v := range w32 {
		nd.Assume(nd.And(v >= -1, v <= 1))
		w[i] = float64(v)
	}
	for i := range out {
		vBoundC(out[i], vWeighted(x[:i+1], k, n, w), 1e-6*float64(m*n*(l+1)), "bins", i)
	}
}
