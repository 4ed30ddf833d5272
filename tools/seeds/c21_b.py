id='c21-single-angle'
prop='C21'
pkg='dsp'
edits=[('dsp/window.go', '\t\toutput[n] = float32(0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1))))\n', '\t\toutput[n] = float32(0.5 * (1 - math.Cos(float64(2*math.Pi*float32(n)/float32(len(output)-1)))))\n')]
needs='a length at which the angle in single precision rounds to another float32 result'
breaks='HanningWindowF32 computes its angle in single precision and is no longer the rounded double window'
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	for n := 1; n < 100; n++ {
		d := make([]float64, n)
		s := make([]float32, n)
		HanningWindow(d)
		HanningWindowF32(s)
		for i := range d {
			if float32(d[i]) != s[i] {
				t.Fatalf("length %d sample %d: %v %v", n, i, float32(d[i]), s[i])
			}
		}
	}
}
'''
