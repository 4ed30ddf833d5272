id="c20-even-window"; prop="C20"; pkg="dsp"
edits=[("dsp/sdft.go", '''	s := &SDFT{
		w: win,
		x: make([]complex128, n),
		e: make([]complex128, len(win)),
		s: make([]complex128, len(win)),
	}
	for i := 0; i < len(win); i++ {
		j := k - len(win)/2 + i
		if j < 0 {
			j += n
		} else if j >= n {
			j -= n
		}
''', '''	s := &SDFT{
		w: win,
		x: make([]complex128, n),
		e: make([]complex128, len(win)),
		s: make([]complex128, len(win)),
	}
	for i := 0; i < len(win); i++ {
		j := k - len(win)/2 + i
		if j < 0 {
			j = -j
		} else if j >= n {
			j -= n
		}
''')]
needs="a window reaching below bin 0 over complex (or asymmetric) input"
breaks="bins below zero are mirrored instead of wrapped"
demo='''
package dsp

import (
	"math/cmplx"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	f, g := NewSDFT(0, 12, []float64{1, 0, 0}), NewSDFT(11, 12, nil)
	for i := 0; i < 40; i++ {
		x := complex(float64(i*i%7)-3, float64(i*i*i%5)-2)
		a, b := f.Filter(x), g.Filter(x)
		if cmplx.Abs(a-b) > 1e-6 {
			t.Fatalf("sample %d: %v, bin 11 is %v", i, a, b)
		}
	}
}
'''
