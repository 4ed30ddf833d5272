id="c19-complex-mag"; prop="C19"; pkg="dsp"
edits=[("dsp/goertzel.go", '''		re := f.q1*f.cos - f.q2 - f.q1i*f.sin
		im := f.q1*f.sin + f.q1i*f.cos - f.q2i
		// q1*cos - q2 - q1i*sin
		g.mag[i] = re*re + im*im
''', '''		// as for real input, once for each part
		g.mag[i] = f.q1*f.q1 + f.q2*f.q2 - f.q1*f.q2*f.coeff +
			f.q1i*f.q1i + f.q2i*f.q2i - f.q1i*f.q2i*f.coeff
''')]
needs="complex input whose real and imaginary parts are both non-zero and differ"
breaks="the cross term between the real and imaginary states is lost: right for purely real or imaginary input only"
demo='''
package dsp

import (
	"math/cmplx"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	g := NewComplexGoertzel([]uint64{1000}, 8000, 16)
	x := make([]complex128, 16)
	for i := range x {
		x[i] = complex(float64(i*i%7)-3, float64(i*i*i%5)-2)
	}
	g.Feed(x)
	a := cmplx.Abs(g.Complex()[0])
	if m := g.Magnitude()[0]; m-a*a > 1e-6 || a*a-m > 1e-6 {
		t.Fatalf("magnitude %v, squared absolute value %v", m, a*a)
	}
}
'''
