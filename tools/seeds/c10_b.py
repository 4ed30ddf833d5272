id="c10-below-axis"; prop="C10"; pkg="dsp"
edits=[("dsp/math32.go", "	if y < 0.0 {\n		return -angle // negate if in quad III or IV\n", "	if y <= -1e-20 {\n		return -angle // negate if in quad III or IV\n")]
needs="negative x and a negative y smaller than about 1e-20"
breaks="the angle of such a vector is Pi instead of -Pi, negating y does not negate it"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	for _, y := range []float32{-1, -1e-3, -1e-10, -1e-22, -1e-30} {
		if a, b := FastAtan2(y, -1), FastAtan2(-y, -1); a != -b {
			t.Errorf("FastAtan2(%v, -1) is %v, of the mirrored vector %v", y, a, b)
		}
	}
}
'''
