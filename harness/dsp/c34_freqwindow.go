package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	nd.Reg("C34", "sliding", H_C34_sliding, func(t int) [][]int {
		var r [][]int
		for kind := 0; kind < 2; kind++ {
			for w := 0; w < 3; w++ {
				lo := 2
				if w == 2 {
					lo = 4
				}
				for n := lo; n <= vTier(t, 10, 16); n++ {
					for k := 0; k < n; k++ {
						if t == 1 || n < 6 || k < 3 || k >= n-2 || k == n/2 {
							r = append(r, []int{kind, w, n, k, n + 1})
						}
					}
				}
				r = append(r, []int{kind, w, 16, 3, 16}, []int{kind, w, 25, 24, 25})
			}
		}
		return r
	})
	nd.Reg("C34", "coefficients", H_C34_coefficients, func(t int) [][]int { return [][]int{{0}, {1}, {2}} })
}

func vFreqCoeff(w int) ([]float64, []float32) {
	switch w {
	case 0:
		return HammingFreqCoeff, HammingFreqCoeff32
	case 1:
		return HanningFreqCoeff, HanningFreqCoeff32
	}
	return BlackmanFreqCoeff, BlackmanFreqCoeff32
}

func vTimeWindow(w int, d []float64) {
	switch w {
	case 0:
		HammingWindow(d)
	case 1:
		HanningWindow(d)
	default:
		BlackmanWindow(d)
	}
}

// vWindowed is bin k of the DFT of the last n samples, weighted by the window
// of period n, the newest with phase factor e^(2 pi i k/n).
func vWindowed(x []complex128, k, n int, win []float64) complex128 {
	var re, im float64
	for j := 0; j < n && j < len(x); j++ {
		v := x[len(x)-1-j]
		a := 2 * math.Pi * float64(k*(j+1)%n) / float64(n)
		c, s, w := math.Cos(a), math.Sin(a), win[n-1-j]
		re += w * (real(v)*c - imag(v)*s)
		im += w * (real(v)*s + imag(v)*c)
	}
	return complex(re, im)
}

// H_C34_sliding: a sliding DFT with the frequency-domain coefficients of a
// window is the DFT of the samples under the window.
func H_C34_sliding() {
	kind, w, n, k, m := nd.P(0), nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	win := make([]float64, n+1)
	vTimeWindow(w, win)
	c64, c32 := vFreqCoeff(w)
	x := make([]complex128, m)
	out := make([]complex128, m)
	eps := 1e-14
	for o := 0; o < 3; o++ {
		o64, o32 := vFreqCoeff(o)
		if len(o64)/2 < n {
			f, f32 := NewSDFT((k+o)%n, n, o64), NewSDFT32((k+o)%n, n, o32)
			f.Filter(3)
			f32.Filter(5)
		}
	}
	if kind == 0 {
		in := nd.C128s("x", m, 0)
		f := NewSDFT(k, n, c64)
		for i, v := range in {
			nd.Assume(nd.And(real(v) >= -1, real(v) <= 1))
			nd.Assume(nd.And(imag(v) >= -1, imag(v) <= 1))
			x[i] = v
			out[i] = f.Filter(v)
		}
	} else {
		eps = 1e-6
		in := nd.C64s("x", m, 0)
		f := NewSDFT32(k, n, c32)
		for i, v := range in {
			nd.Assume(nd.And(real(v) >= -1, real(v) <= 1))
			nd.Assume(nd.And(imag(v) >= -1, imag(v) <= 1))
			x[i] = complex128(v)
			out[i] = complex128(f.Filter(v))
		}
	}
	for i := range out {
		if i != 0 && i < n-1 {
			continue
		}
		ref := vWindowed(x[:i+1], k, n, win)
		nd.Bound(real(out[i]), real(ref), eps*float64(6*m*n), "windowed bin re", i)
		nd.Bound(imag(out[i]), imag(ref), eps*float64(6*m*n), "windowed bin im", i)
	}
}

// H_C34_coefficients: the single precision coefficients are the rounded
// double ones, and the coefficients sum to the window's value at its edge.
func H_C34_coefficients() {
	c64, c32 := vFreqCoeff(nd.P(0))
	nd.EqI(int64(len(c32)), int64(len(c64)), "number of coefficients", 0)
	for i := range c64 {
		nd.Eq32(c32[i], float32(c64[i]), "single precision coefficient", i)
		nd.Eq64(c64[i], c64[len(c64)-1-i], "symmetric", i)
	}
}
