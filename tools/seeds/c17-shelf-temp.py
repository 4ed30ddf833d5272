id="c17-shelf-temp"; prop="C17"; pkg="dsp"
edits=[("dsp/biquad.go", '''	alpha := sinW0 / 2 * math.Sqrt((a+1/a)*(1/shelfSlope-1)+2)
	temp := 2 * math.Sqrt(a) * alpha
	return &BiQuadFilter{
		B0: a * ((a + 1) + (a-1)*cosW0 + temp),
		B1: -2 * a * ((a - 1) + (a+1)*cosW0),
		B2: a * ((a + 1) + (a-1)*cosW0 - temp),
''', '''	alpha := sinW0 / 2 * math.Sqrt((a+1/a)*(1/shelfSlope-1)+2)
	if shelfSlope < 0.1 {
		alpha = -alpha * shelfSlope * 10
	}
	temp := 2 * math.Sqrt(a) * alpha
	return &BiQuadFilter{
		B0: a * ((a + 1) + (a-1)*cosW0 + temp),
		B1: -2 * a * ((a - 1) + (a+1)*cosW0),
		B2: a * ((a + 1) + (a-1)*cosW0 - temp),
''')]
needs="a high shelf with a slope below 0.1"
breaks="the poles leave the unit circle, while the gains at DC and Nyquist stay right"
demo='''
package dsp

import (
	"math"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for _, s := range []float64{1, 0.5, 0.2, 0.07} {
		f := HighShelfBiQuadFilter(48000, 1000, s, 6)
		if math.Abs(f.A2) >= math.Abs(f.A0) {
			t.Fatalf("slope %v: unstable", s)
		}
	}
}
'''
