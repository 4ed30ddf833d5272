id="c06-vmul-inplace"; prop="C06"; pkg="dsp"
edits=[("dsp/math32.go", '''	for i, v := range input[:n] {
		output[i] = v * mul[i]
	}
''', '''	input, output, mul = input[:n], output[:n], mul[:n]
	for i := range input {
		output[i] = complex(real(input[i])*real(mul[i])-imag(input[i])*imag(mul[i]), 0)
		output[i] = complex(real(output[i]), real(input[i])*imag(mul[i])+imag(input[i])*real(mul[i]))
	}
''')]
needs="VMulC64 used in place, the output being the input or the multiplier slice"
breaks="the real part is stored before the imaginary part is computed from the operands, so in-place multiplication gives wrong imaginary parts"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	a := []complex64{1 + 2i, 3 - 4i, -5i}
	b := []complex64{2 - 1i, 1i, 3 + 7i}
	want := make([]complex64, 3)
	for i := range a {
		want[i] = a[i] * b[i]
	}
	VMulC64(a, a, b)
	for i := range a {
		if a[i] != want[i] {
			t.Errorf("element %d: %v, want %v", i, a[i], want[i])
		}
	}
}
'''
