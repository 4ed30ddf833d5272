id="c16-f32-history"; prop="C16"; pkg="dsp"
edits=[("dsp/biquad.go", '''		newSample := b0a0*float64(s) + b1a0*f.prevIn[0] + b2a0*f.prevIn[1] - a1a0*f.prevOut[0] - a2a0*f.prevOut[1]
		f.prevOut[1] = f.prevOut[0]
		f.prevOut[0] = newSample
		f.prevIn[1] = f.prevIn[0]
		f.prevIn[0] = float64(s)
		output[i] = float32(newSample)
	}
''', '''		newSample := b0a0*float64(s) + b1a0*f.prevIn[0] + b2a0*f.prevIn[1] - a1a0*f.prevOut[0] - a2a0*f.prevOut[1]
		f.prevOut[1] = f.prevOut[0]
		f.prevOut[0] = newSample
		f.prevIn[1] = f.prevIn[0]
		f.prevIn[0] = float64(s)
		output[i] = float32(newSample)
	}
	if n := len(output); n > 0 && n == len(input) {
		// A silent filter need not keep decaying through denormals.
		if math.Abs(f.prevOut[0]) < math.SmallestNonzeroFloat32 {
			f.prevOut[0] = 0
		}
	}
''')]
needs="a block that ends with an output below the smallest float32, followed by another block"
breaks="the double-precision history is flushed to zero at the end of a call, so cut streams differ from uncut ones"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	mk := func() *BiQuadFilter { return &BiQuadFilter{B0: 1e-50, A0: 1, A1: -1e30} }
	x := []float32{1, 0, 0, 0}
	one, cut := mk(), mk()
	want, got := make([]float32, 4), make([]float32, 4)
	one.FilterF32(x, want)
	cut.FilterF32(x[:1], got[:1])
	cut.FilterF32(x[1:], got[1:])
	for i := range want {
		if got[i] != want[i] {
			t.Fatalf("%v, uncut %v", got, want)
		}
	}
}
'''
