id="c07-finite-min"; prop="C07"; pkg="dsp"
edits=[("dsp/math32.go", '''	min := float32(math.Inf(1))
	for _, v := range input {
''', '''	min := float32(math.MaxFloat32)
	if len(input) == 0 {
		return float32(math.Inf(1))
	}
	for _, v := range input {
''')]
needs="the portable code and a slice of nothing but +Inf"
breaks="the result is not an element of the slice"
demo='''
package dsp

import (
	"math"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	inf := float32(math.Inf(1))
	if v := vMinF32([]float32{inf, inf}); v != inf {
		t.Fatal(v)
	}
	if v := vMinF32([]float32{inf, 2}); v != 2 {
		t.Fatal(v)
	}
}
'''
