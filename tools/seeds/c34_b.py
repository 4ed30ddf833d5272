id="c34-blackman-sign"; prop="C34"; pkg="dsp"
edits=[("dsp/window.go", '''	BlackmanFreqCoeff = []float64{0.16 / 4, -1.0 / 4, (1 - 0.16) / 2, -1.0 / 4, 0.16 / 4}
''', '''	BlackmanFreqCoeff = []float64{-0.16 / 4, -1.0 / 4, (1 - 0.16) / 2, -1.0 / 4, -0.16 / 4}
'''), ("dsp/window.go", '''	BlackmanFreqCoeff32 = []float32{0.16 / 4, -1.0 / 4, (1 - 0.16) / 2, -1.0 / 4, 0.16 / 4}
''', '''	BlackmanFreqCoeff32 = []float32{-0.16 / 4, -1.0 / 4, (1 - 0.16) / 2, -1.0 / 4, -0.16 / 4}
''')]
needs="a sliding DFT with the Blackman coefficients and energy two bins away"
breaks="the second harmonic of the window has the wrong sign"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	w := make([]float64, 9)
	BlackmanWindow(w)
	f := NewSDFT(0, 8, BlackmanFreqCoeff)
	var got complex128
	for i := 0; i < 8; i++ {
		x := complex(0, 0)
		if i == 2 {
			x = 1
		}
		got = f.Filter(x)
	}
	if d := real(got) - w[2]; d > 1e-9 || d < -1e-9 {
		t.Fatal(got, w[2])
	}
}
'''
