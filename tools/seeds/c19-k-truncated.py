id="c19-k-truncated"; prop="C19"; pkg="dsp"
edits=[("dsp/goertzel.go", '''func NewComplexGoertzel(targetFreqs []uint64, sampleRate, blockSize int) *ComplexGoertzel {
	freq := make([]*goertzel, len(targetFreqs))
	for i, f := range targetFreqs {
		k := uint64(0.5 + float64(uint64(blockSize)*f)/float64(sampleRate))''', '''func NewComplexGoertzel(targetFreqs []uint64, sampleRate, blockSize int) *ComplexGoertzel {
	freq := make([]*goertzel, len(targetFreqs))
	for i, f := range targetFreqs {
		// k is the closest bucket for the frequency
		k := (uint64(blockSize) + uint64(blockSize)*f) / uint64(sampleRate)''')]
needs="a complex filter whose target frequency lies in the upper half of a bin"
breaks="the bin is rounded down instead of to the nearest"
demo='''
package dsp

import (
	"math"
	"math/cmplx"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	const n, rate = 16, 8000
	for f := uint64(0); f < 4000; f += 100 {
		k := math.Floor(0.5 + n*float64(f)/rate)
		if math.Abs(n*float64(f)/rate-k) == 0.5 {
			continue
		}
		x := make([]complex128, n)
		var want complex128
		for i := range x {
			x[i] = complex(float64(i*i%7)-3, float64(i*i*i%5)-2)
			want += x[i] * cmplx.Exp(complex(0, -2*math.Pi*k*float64(i)/n))
		}
		g := NewComplexGoertzel([]uint64{f}, rate, n)
		g.Feed(x)
		if d := cmplx.Abs(g.Complex()[0] - want); d > 1e-6 {
			t.Fatalf("f=%d: %v, want %v", f, g.Complex()[0], want)
		}
	}
}
'''
