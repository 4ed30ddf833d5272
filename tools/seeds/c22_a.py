id='c22-hermite-floor'
prop='C22'
pkg='dsp'
edits=[('dsp/interpolate.go', '// Hermite4p3oF32 interpolates using 4-point, 3rd-order Hermite (x-form)\nfunc Hermite4p3oF32(samples []float32, x float32) float32 {\n\txi := int(math.Floor(float64(x)))\n\n\tvar s [4]float32\n\tfor i := -1; i <= 2; i++ {\n\t\tif j := xi + i; j >= 0 && j < len(samples) {\n\t\t\ts[i+1] = float32(samples[j])\n\t\t}\n\t}\n\n\tx -= float32(math.Floor(float64(x)))\n\tc0 := s[1]\n\tc1 := 1.0 / 2.0 * (s[2] - s[0])\n\tc2 := s[0] - 5.0/2.0*s[1] + 2.0*s[2] - 1.0/2.0*s[3]\n\tc3 := 1.0/2.0*(s[3]-s[0]) + 3.0/2.0*(s[1]-s[2])\n\treturn ((c3*x+c2)*x+c1)*x + c0\n}\n\n', '// Hermite4p3oF32 interpolates using 4-point, 3rd-order Hermite (x-form)\nfunc Hermite4p3oF32(samples []float32, x float32) float32 {\n\txi := int(x + 0.5)\n\n\tvar s [4]float32\n\tfor i := -1; i <= 2; i++ {\n\t\tif j := xi + i; j >= 0 && j < len(samples) {\n\t\t\ts[i+1] = float32(samples[j])\n\t\t}\n\t}\n\n\tif x -= float32(xi); x < 0 {\n\t\tx = 0\n\t}\n\tc0 := s[1]\n\tc1 := 1.0 / 2.0 * (s[2] - s[0])\n\tc2 := s[0] - 5.0/2.0*s[1] + 2.0*s[2] - 1.0/2.0*s[3]\n\tc3 := 1.0/2.0*(s[3]-s[0]) + 3.0/2.0*(s[1]-s[2])\n\treturn ((c3*x+c2)*x+c1)*x + c0\n}\n\n')]
needs='a position in the upper half of a unit interval of the float32 Hermite interpolator'
breaks='the float32 version rounds the position to the nearest sample and takes the wrong window'
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	s := []float32{0, 1, 2, 3, 4, 5}
	if y := Hermite4p3oF32(s, 2.75); y < 2.74 || y > 2.76 {
		t.Errorf("a straight line gives %v at 2.75", y)
	}
}
'''
