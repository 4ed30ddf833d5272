id="c17-peaking-cut"; prop="C17"; pkg="dsp"
edits=[("dsp/biquad.go", '''		B0: 1 + alpha*a,
		B1: -2 * cosW0,
		B2: 1 - alpha*a,
		A0: 1 + alpha/a,
		A1: -2 * cosW0,
		A2: 1 - alpha/a,
''', '''		B0: 1 + alpha*a,
		B1: -2 * cosW0,
		B2: 1 - alpha*a,
		A0: 1 + alpha/math.Max(a, 1/a),
		A1: -2 * cosW0,
		A2: 1 - alpha/math.Max(a, 1/a),
''')]
needs="a negative gain"
breaks="a cut is only half as deep at the centre as asked for"
demo='''
package dsp

import (
	"math"
	"math/cmplx"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for _, db := range []float64{12, 3, 0, -3, -12} {
		f := PeakingEQBiQuadFilter(48000, 1000, 1.5, db)
		z := cmplx.Exp(complex(0, -2*math.Pi*1000/48000))
		r := func(x float64) complex128 { return complex(x, 0) }
		h := (r(f.B0) + r(f.B1)*z + r(f.B2)*z*z) / (r(f.A0) + r(f.A1)*z + r(f.A2)*z*z)
		if g := 20 * math.Log10(cmplx.Abs(h)); math.Abs(g-db) > 1e-6 {
			t.Fatalf("asked for %v dB, got %v", db, g)
		}
	}
}
'''
