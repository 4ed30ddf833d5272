id="c34-hamming-054"; prop="C34"; pkg="dsp"
edits=[("dsp/window.go", '''	HammingFreqCoeff32  = []float32{(0.53836 - 1) / 2, 0.53836, (0.53836 - 1) / 2}
''', '''	HammingFreqCoeff32  = []float32{(0.54 - 1) / 2, 0.54, (0.54 - 1) / 2}
''')]
needs="the single precision sliding DFT with the Hamming coefficients"
breaks="the window in the frequency domain is another one than HammingWindow"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	w := make([]float64, 9)
	HammingWindow(w)
	f := NewSDFT32(0, 8, HammingFreqCoeff32)
	var got complex64
	var want float64
	for i := 0; i < 8; i++ {
		got = f.Filter(1)
		want += w[i]
	}
	if d := float64(real(got)) - want; d > 1e-4 || d < -1e-4 {
		t.Fatal(got, want)
	}
}
'''
