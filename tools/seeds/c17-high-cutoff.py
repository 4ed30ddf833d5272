id="c17-high-cutoff"; prop="C17"; pkg="dsp"
edits=[("dsp/biquad.go", '''func NewHighPassBiQuadFilter(sampleRate, cutoffFreq, q float64) *BiQuadFilter {
	w0 := 2 * math.Pi * cutoffFreq / sampleRate
''', '''func NewHighPassBiQuadFilter(sampleRate, cutoffFreq, q float64) *BiQuadFilter {
	w0 := 2 * math.Pi * math.Min(cutoffFreq/sampleRate, 0.45)
''')]
needs="a cutoff above nine tenths of the Nyquist frequency"
breaks="the magnitude at the cutoff is no longer q"
demo='''
package dsp

import (
	"math"
	"math/cmplx"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for _, c := range []float64{100, 5000, 20000, 23000} {
		f := NewHighPassBiQuadFilter(48000, c, 0.8)
		z := cmplx.Exp(complex(0, -2*math.Pi*c/48000))
		r := func(x float64) complex128 { return complex(x, 0) }
		h := (r(f.B0) + r(f.B1)*z + r(f.B2)*z*z) / (r(f.A0) + r(f.A1)*z + r(f.A2)*z*z)
		if g := cmplx.Abs(h); math.Abs(g-0.8) > 1e-6 {
			t.Fatalf("magnitude %v at %v Hz", g, c)
		}
	}
}
'''
