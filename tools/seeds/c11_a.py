id="c11-int32"; prop="C11"; pkg="dsp"
edits=[("dsp/mathfixed.go", "	t := (y << atanLUTCoef) / x\n", "	t := int(int64(int32(y<<atanLUTCoef)) / int64(x))\n")]
needs="y of 2^23 or more in magnitude"
breaks="the scaled y wraps and the angle is wrong"
demo='''
package dsp

import (
	"math"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for _, v := range [][2]int{{100, 200}, {1 << 20, 1 << 21}, {9000000, 12345}, {1 << 30, -1 << 29}} {
		g, w := float64(Atan2LUT(v[0], v[1]))*math.Pi/(1<<14), math.Atan2(float64(v[0]), float64(v[1]))
		if math.Abs(g-w) > 0.005 {
			t.Errorf("Atan2LUT(%v, %v) is %v want %v", v[0], v[1], g, w)
		}
	}
}
'''
