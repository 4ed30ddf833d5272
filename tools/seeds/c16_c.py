id="c16-normalised-once"; prop="C16"; pkg="dsp"
edits=[("dsp/biquad.go", '''	prevIn, prevOut [2]float64
}
''','''	prevIn, prevOut [2]float64
	norm            [6]float64 // the coefficients over A0, then A0
}

func (f *BiQuadFilter) normalise() {
	if f.norm[5] != f.A0 || f.A0 == 0 {
		f.norm = [6]float64{f.B0 / f.A0, f.B1 / f.A0, f.B2 / f.A0, f.A1 / f.A0, f.A2 / f.A0, f.A0}
	}
}
'''),("dsp/biquad.go",'''func (f *BiQuadFilter) Filter(input, output []float64) {
	b0a0 := f.B0 / f.A0
	b1a0 := f.B1 / f.A0
	b2a0 := f.B2 / f.A0
	a1a0 := f.A1 / f.A0
	a2a0 := f.A2 / f.A0
''','''func (f *BiQuadFilter) Filter(input, output []float64) {
	f.normalise()
	b0a0, b1a0, b2a0, a1a0, a2a0 := f.norm[0], f.norm[1], f.norm[2], f.norm[3], f.norm[4]
''')]
needs="coefficients changed between two calls, A0 staying the same (a band swept with a constant normalisation)"
breaks="the filter goes on with the coefficients of its first call"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	f := BiQuadFilter{B0: 1, A0: 1}
	y := make([]float64, 1)
	f.Filter([]float64{1}, y)
	f.B0 = 2
	f.Filter([]float64{1}, y)
	if y[0] != 2 {
		t.Fatal(y)
	}
}
'''
