package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	nd.Reg("C21", "any-length", H_C21_any, func(t int) [][]int {
		var r [][]int
		for k := 0; k < 5; k++ {
			r = append(r, []int{k, 15}, []int{k, vTier(t, 31, 63)})
		}
		return r
	})
	nd.Reg("C21", "length", H_C21_length, func(t int) [][]int {
		var r [][]int
		for k := 0; k < 5; k++ {
			for n := 1; n <= vTier(t, 70, 300); n++ {
				r = append(r, []int{k, n})
			}
			r = append(r, []int{k, 256}, []int{k, 511}, []int{k, 1024})
		}
		return r
	})
}

func vWindow(k int, d []float64, s []float32) {
	switch k {
	case 0:
		TriangleWindow(d)
		TriangleWindowF32(s)
	case 1:
		HammingWindow(d)
		HammingWindowF32(s)
	case 2:
		HanningWindow(d)
		HanningWindowF32(s)
	case 3:
		BlackmanWindow(d)
		BlackmanWindowF32(s)
	default:
		NuttallWindow(d)
		NuttallWindowF32(s)
	}
}

// vWindowAt is the value i samples into a window of n samples; the higher
// harmonics are written as polynomials of the first.
func vWindowAt(k int, i int, n float64) float64 {
	if k == 0 {
		return 1 - math.Abs((float64(i)-(n-1)/2)/((n+1)/2))
	}
	c := math.Cos(2 * math.Pi * (float64(i) / (n - 1)))
	switch k {
	case 1:
		return 0.53836 - 0.46164*c
	case 2:
		return 0.5 - 0.5*c
	case 3:
		return 0.42 - 0.5*c + 0.08*(2*c*c-1)
	}
	return 0.355768 - 0.487396*c + 0.144232*(2*c*c-1) - 0.012604*(4*c*c*c-3*c)
}

// H_C21_any: for every length up to the bound, whatever the slice held.
func H_C21_any() {
	k, max := nd.P(0), nd.P(1)
	d := nd.F64s("d", max+2, 0)
	s := nd.F32s("s", max+2, 0)
	d0 := append([]float64(nil), d...)
	n := 1 + int(nd.U8("n")&uint8(max)) // max+1 is a power of two
	nd.Assume(n <= max)
	if n == 1 {
		vWindow(k, d[:n], s[:n])
		nd.Bound(d[0], 1, 1e-12, "window of one sample", 0)
		nd.Bound(float64(s[0]), 1, 1e-6, "window of one sample (float32)", 0)
		return
	}
	vWindow(k, d[:n], s[:n])
	for i := 0; i < max; i++ {
		if i < n {
			nd.Eq32(s[i], float32(d[i]), "float32 is the double rounded", i)
			nd.Bound(d[i], vWindowAt(k, i, float64(n)), 1e-12, "formula", i)
			nd.Bound(d[i], 0.5, 0.5+1e-6, "between 0 and 1", i)
		} else {
			nd.Eq64(d[i], d0[i], "samples after the slice", i)
		}
	}
}

// H_C21_length: one length at a time.
func H_C21_length() {
	k, n := nd.P(0), nd.P(1)
	d := nd.F64s("d", n, 0)
	s := nd.F32s("s", n, 0)
	for o := 0; o < 5; o++ {
		// other windows before
		vWindow(o, make([]float64, n+o%2), make([]float32, n+o%2))
	}
	vWindow(k, d, s)
	for i := 0; i < n; i++ {
		nd.Eq32(s[i], float32(d[i]), "float32 is the double rounded", i)
		if n == 1 {
			nd.Bound(d[i], 1, 1e-12, "window of one sample", i)
			continue
		}
		nd.Bound(d[i], vWindowAt(k, i, float64(n)), 1e-12, "formula", i)
		nd.Bound(d[i], d[n-1-i], 1e-12, "symmetric", i)
		nd.Bound(d[i], 0.5, 0.5+1e-6, "between 0 and 1", i)
	}
	if n%2 == 1 {
		nd.Bound(d[n/2], 1, 1e-12, "peak in the middle", 0)
	}
}
