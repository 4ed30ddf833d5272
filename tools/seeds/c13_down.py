id="c13-block-sum"; prop="C13"; pkg="dsp"
edits=[("dsp/downsample.go", '''	i2 := 0
	// outputScale := 1.0 / float32(fi.Downsample)
	for _, v := range samples {
''', '''	i2 := 0
	// outputScale := 1.0 / float32(fi.Downsample)
	if d := fi.Downsample; fi.prevIndex == 0 && d >= 4 && len(samples) >= 2*d {
		// Whole groups first, two running sums each.
		n := len(samples) / d
		for ; i2 < n; i2++ {
			var a, b complex64
			g := samples[i2*d : i2*d+d]
			for i := 0; i+1 < d; i += 2 {
				a += g[i]
				b += g[i+1]
			}
			samples[i2] = a + b
		}
		samples = samples[:copy(samples[i2:], samples[i2*d:])+i2]
	}
	for _, v := range samples[i2:] {
''')]
needs="an odd downsampling factor of at least 5 and a call with two whole groups on a group boundary"
breaks="the last sample of every group is left out when the factor is odd"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	for d := 1; d < 12; d++ {
		f := LowPassDownsampleComplexFilter{Downsample: d}
		x := make([]complex64, 40)
		for i := range x {
			x[i] = complex(float32(i*i%17), float32(i))
		}
		y := f.Filter(append([]complex64(nil), x...))
		if len(y) != 40/d {
			t.Fatalf("factor %d: %d outputs", d, len(y))
		}
		for i, v := range y {
			var s complex64
			for _, u := range x[i*d : i*d+d] {
				s += u
			}
			if s != v {
				t.Fatalf("factor %d: output %d is %v, want %v", d, i, v, s)
			}
		}
	}
}
'''
