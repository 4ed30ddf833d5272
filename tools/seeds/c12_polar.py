id="c12-polar-wrap"; prop="C12"; pkg="dsp"
edits=[("dsp/demod.go", '''	return cmplx.Phase(a * cmplx.Conj(b))
''', '''	return cmplx.Phase(a) - cmplx.Phase(b)
''')]
needs="two samples whose angles differ by more than Pi, across the negative real axis"
breaks="the angle is not brought back into (-Pi, Pi]"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	if p := PolarDiscriminator(complex(-1, 0.1), complex(-1, -0.1)); p > 0 || p < -1 {
		t.Fatal(p)
	}
}
'''
