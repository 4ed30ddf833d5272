id='c21-mirror'
prop='C21'
pkg='dsp'
edits=[('dsp/window.go', 'func windowF32(output []float32, a []float64) {\n\tif len(a) < 1 || len(a) > 4 {\n\t\tpanic("invalid window length " + strconv.Itoa(len(a)))\n\t}\n\tif len(output) == 1 {\n\t\toutput[0] = 1\n\t\treturn\n\t}\n\tnn := float64(len(output) - 1)\n\tfor n := range output {\n\t\tfn := float64(n)\n\t\tv := a[0]\n\t\tif len(a) > 1 {\n\t\t\tv -= a[1] * math.Cos(2*math.Pi*fn/nn)\n\t\t}\n\t\tif len(a) > 2 {\n\t\t\tv += a[2] * math.Cos(4*math.Pi*fn/nn)\n\t\t}\n\t\tif len(a) > 3 {\n\t\t\tv -= a[3] * math.Cos(6*math.Pi*fn/nn)\n\t\t}\n\t\toutput[n] = float32(v)\n\t}\n}\n', 'func windowF32(output []float32, a []float64) {\n\tif len(a) < 1 || len(a) > 4 {\n\t\tpanic("invalid window length " + strconv.Itoa(len(a)))\n\t}\n\tif len(output) == 1 {\n\t\toutput[0] = 1\n\t\treturn\n\t}\n\tnn := float64(len(output) - 1)\n\tfor n := 0; n < len(output)/2; n++ {\n\t\tfn := float64(n)\n\t\tv := a[0]\n\t\tif len(a) > 1 {\n\t\t\tv -= a[1] * math.Cos(2*math.Pi*fn/nn)\n\t\t}\n\t\tif len(a) > 2 {\n\t\t\tv += a[2] * math.Cos(4*math.Pi*fn/nn)\n\t\t}\n\t\tif len(a) > 3 {\n\t\t\tv -= a[3] * math.Cos(6*math.Pi*fn/nn)\n\t\t}\n\t\toutput[n] = float32(v)\n\t\toutput[len(output)-1-n] = float32(v)\n\t}\n}\n')]
needs='a float32 window of odd length'
breaks='the middle sample of an odd float32 window keeps what the slice held before'
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	w := make([]float32, 5)
	HammingWindowF32(w)
	if w[2] != 1 {
		t.Errorf("peak is %v", w[2])
	}
}
'''
