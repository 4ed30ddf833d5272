id="c20-ring-mask"; prop="C20"; pkg="dsp"
edits=[("dsp/sdft.go", '''func (sd *SDFT32) Filter(x complex64) complex64 {
	i := (sd.i + 1) % len(sd.x)''', '''func (sd *SDFT32) Filter(x complex64) complex64 {
	i := (sd.i + 1) & (len(sd.x) - 1)''')]
needs="a length that is not a power of two, and more samples than fit the part of the ring in use"
breaks="the ring is cut short, so samples leave the sum early"
demo='''
package dsp

import (
	"math/cmplx"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	f, g := NewSDFT(2, 12, nil), NewSDFT32(2, 12, nil)
	for i := 0; i < 40; i++ {
		x := complex(float64(i*i%7)-3, float64(i*i*i%5)-2)
		a, b := f.Filter(x), g.Filter(complex64(x))
		if cmplx.Abs(a-complex128(b)) > 1e-3 {
			t.Fatalf("sample %d: %v, single %v", i, a, b)
		}
	}
}
'''
