id="c10-steep"; prop="C10"; pkg="dsp"
edits=[("dsp/math32.go", "	if zz < 1.0 {\n", "	if zz > 12500.0 {\n		// as good as on the axis\n		if y < 0.0 {\n			return -pi2\n		}\n		return pi2\n	} else if zz < 1.0 {\n")]
needs="a vector close to the y axis with a slope between 112 and 200"
breaks="FastAtan2_2 is off by up to 0.009 there, the bound is 0.005"
demo='''
package dsp

import (
	"math"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for _, v := range [][2]float32{{113, 1}, {-120, 1}, {150, -1}, {1200, 10}, {50, 3}} {
		g, w := float64(FastAtan2_2(v[0], v[1])), math.Atan2(float64(v[0]), float64(v[1]))
		if math.Abs(g-w) > 0.005 {
			t.Errorf("FastAtan2_2(%v, %v) is %v want %v", v[0], v[1], g, w)
		}
	}
}
'''
