id='c22-window-edge'
prop='C22'
pkg='dsp'
edits=[('dsp/interpolate.go', '// Optimal2x6p5oF32 interpolates using optimal 2x (6-point, 5th-order) (z-form)\nfunc Optimal2x6p5oF32(samples []float32, x float32) float32 {\n\tconst middle = 2\n\txi := int(math.Floor(float64(x)))\n\n\tvar s [6]float32\n\tfor i := -2; i <= 3; i++ {\n\t\tif j := xi + i; j >= 0 && j < len(samples) {\n\t\t\ts[middle+i] = float32(samples[j])\n\t\t}\n\t}\n\n\teven1 := s[middle+1] + s[middle]\n\todd1 := s[middle+1] - s[middle]\n\teven2 := s[middle+2] + s[middle-1]\n\todd2 := s[middle+2] - s[middle-1]\n\teven3 := s[middle+3] + s[middle-2]\n\todd3 := s[middle+3] - s[middle-2]\n\tc0 := even1*0.40513396007145713 + even2*0.09251794438424393 + even3*0.00234806603570670\n\tc1 := odd1*0.28342806338906690 + odd2*0.21703277024054901 + odd3*0.01309294748731515\n\tc2 := even1*-0.191337682540351941 + even2*0.16187844487943592 + even3*0.02946017143111912\n\tc3 := odd1*-0.16471626190554542 + odd2*-0.00154547203542499 + odd3*0.03399271444851909\n\tc4 := even1*0.03845798729588149 + even2*-0.05712936104242644 + even3*0.01866750929921070\n\tc5 := odd1*0.04317950185225609 + odd2*-0.01802814255926417 + odd3*0.00152170021558204\n\n\tz := x - float32(math.Floor(float64(x))) - 1.0/2.0\n\treturn ((((c5*z+c4)*z+c3)*z+c2)*z+c1)*z + c0\n}\n', '// Optimal2x6p5oF32 interpolates using optimal 2x (6-point, 5th-order) (z-form)\nfunc Optimal2x6p5oF32(samples []float32, x float32) float32 {\n\tconst middle = 2\n\txi := int(math.Floor(float64(x)))\n\n\tvar s [6]float32\n\tif xi >= 2 && xi < len(samples)-2 {\n\t\tcopy(s[:], samples[xi-2:])\n\t} else {\n\t\tfor i := -2; i <= 3; i++ {\n\t\t\tif j := xi + i; j >= 1 && j < len(samples) {\n\t\t\t\ts[middle+i] = float32(samples[j])\n\t\t\t}\n\t\t}\n\t}\n\n\teven1 := s[middle+1] + s[middle]\n\todd1 := s[middle+1] - s[middle]\n\teven2 := s[middle+2] + s[middle-1]\n\todd2 := s[middle+2] - s[middle-1]\n\teven3 := s[middle+3] + s[middle-2]\n\todd3 := s[middle+3] - s[middle-2]\n\tc0 := even1*0.40513396007145713 + even2*0.09251794438424393 + even3*0.00234806603570670\n\tc1 := odd1*0.28342806338906690 + odd2*0.21703277024054901 + odd3*0.01309294748731515\n\tc2 := even1*-0.191337682540351941 + even2*0.16187844487943592 + even3*0.02946017143111912\n\tc3 := odd1*-0.16471626190554542 + odd2*-0.00154547203542499 + odd3*0.03399271444851909\n\tc4 := even1*0.03845798729588149 + even2*-0.05712936104242644 + even3*0.01866750929921070\n\tc5 := odd1*0.04317950185225609 + odd2*-0.01802814255926417 + odd3*0.00152170021558204\n\n\tz := x - float32(math.Floor(float64(x))) - 1.0/2.0\n\treturn ((((c5*z+c4)*z+c3)*z+c2)*z+c1)*z + c0\n}\n')]
needs='a position before the third sample'
breaks='the float32 6-point interpolator drops the first sample when the window is not inside the slice'
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	a := Optimal2x6p5oF32([]float32{1, 0, 0, 0, 0, 0, 0}, 0.5)
	b := Optimal2x6p5o([]float64{1, 0, 0, 0, 0, 0, 0}, 0.5)
	if d := float64(a) - b; d > 1e-4 || d < -1e-4 {
		t.Errorf("float32 gives %v, float64 %v", a, b)
	}
}
'''
