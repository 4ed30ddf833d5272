id="c11-complement"; prop="C11"; pkg="dsp"
edits=[("dsp/mathfixed.go", "	yAbs := y\n	if yAbs < 0 {\n		yAbs = -yAbs\n	}\n\n	var angle int\n", "	yAbs := y ^ y>>63\n\n	var angle int\n")]
needs="small negative y"
breaks="the absolute value of a negative y is one too small: (-1, 0) divides by zero, and angles of short vectors are wrong"
demo='''
package dsp

import (
	"math"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for _, v := range [][2]int{{1, 0}, {-3, 1}, {-64, 100}, {-2, 5}, {-1, 0}} {
		g, w := float64(FastAtan2Fixed(v[0], v[1]))*math.Pi/(1<<14), math.Atan2(float64(v[0]), float64(v[1]))
		if math.Abs(g-w) > 0.08 {
			t.Errorf("FastAtan2Fixed(%v, %v) is %v want %v", v[0], v[1], g, w)
		}
	}
}
'''
