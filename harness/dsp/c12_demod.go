package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

var pDemod = func(f *FMDemodFilter, in []complex64, out []float32) int { return f.Demodulate(in, out) }

func init() {
	jobs := func(t int) [][]int {
		var r [][]int
		n := vTier(t, 5, 9)
		for a := 0; a <= n; a++ {
			for b := a; b <= n; b += 2 {
				r = append(r, []int{n, a, b})
			}
		}
		return append(r, []int{vTier(t, 12, 24), 7, 7}, []int{20, 9, 17})
	}
	nd.Reg("C12", "demod", H_C12_demod, jobs)
	nd.Reg("C12", "discriminator", H_C12_discriminator, func(int) [][]int { return [][]int{{}} })
}

// H_C12_demod: the stream x[:n] demodulated at once, and cut at a and b.
func H_C12_demod() {
	n, a, b := nd.P(0), nd.P(1), nd.P(2)
	x := nd.C64s("x", n, 0)
	nd.Freeze()
	y := nd.F32s("y", n+2, 0)
	y0 := append([]float32(nil), y...)
	var f FMDemodFilter
	m := pDemod(&f, x, y)
	nd.EqI(int64(m), int64(n), "samples written", n)
	var pre complex64
	for i, v := range x {
		nd.Eq32(y[i], FastPhase32(complex(
			real(v)*real(pre)+imag(v)*imag(pre),
			imag(v)*real(pre)-real(v)*imag(pre))), "arctangent of x[i] times conj x[i-1]", i)
		nd.Eq32(y[i], PolarDiscriminator32(v, pre), "PolarDiscriminator32", i)
		pre = v
	}
	for i := n; i < len(y); i++ {
		nd.Eq32(y[i], y0[i], "beyond the samples", i)
	}
	var g FMDemodFilter
	z := make([]float32, n)
	k := pDemod(&g, x[:a], z[:a])
	nd.EqI(int64(k), int64(a), "samples written, first part", a)
	k = pDemod(&g, x[a:b], z[a:b])
	nd.EqI(int64(k), int64(b-a), "samples written, second part", a)
	k = pDemod(&g, x[b:], z[b:])
	nd.EqI(int64(k), int64(n-b), "samples written, third part", a)
	for i := range z {
		nd.Eq32(z[i], y[i], "cut stream", i)
	}
}

// H_C12_discriminator: the arctangent of a times conj b.
func H_C12_discriminator() {
	a, b := nd.C64("a"), nd.C64("b")
	im := imag(a)*real(b) - real(a)*imag(b)
	re := real(a)*real(b) + imag(a)*imag(b)
	nd.Eq32(PolarDiscriminator32(a, b), FastAtan2(im, re), "PolarDiscriminator32", 0)
	nd.Eq32(FastPhase32(a), FastAtan2(imag(a), real(a)), "FastPhase32", 0)
	nd.Eq32(real(Conj32(a)), real(a), "Conj32 re", 0)
	nd.Eq32(imag(Conj32(a)), -imag(a), "Conj32 im", 0)
	nd.Eq32(Phase32(a), float32(math.Atan2(float64(imag(a)), float64(real(a)))), "Phase32", 0)
	x, y := nd.C128("x"), nd.C128("y")
	im64 := imag(x)*real(y) - real(x)*imag(y)
	re64 := real(x)*real(y) + imag(x)*imag(y)
	nd.Eq64(PolarDiscriminator(x, y), math.Atan2(im64, re64), "PolarDiscriminator", 0)
}
