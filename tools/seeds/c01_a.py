id="c01-single"; prop="C01"; pkg="dsp"
edits=[("dsp/conversion.go", '''	for i, v := range input[:n] {
		v -= 128
		output[i*2] = v
		output[i*2+1] = v
	}
''', '''	i := 0
	for ; i < n-1; i += 2 {
		a, b := input[i]-128, input[i+1]-128
		o := output[i*2 : i*2+4]
		o[0], o[1], o[2], o[3] = a, a, b, b
	}
	if i > 0 && n&1 != 0 {
		v := input[i] - 128
		output[i*2], output[i*2+1] = v, v
	}
''')]
needs="the portable code given exactly one sample"
breaks="a lone sample is not converted"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	for n := 0; n < 9; n++ {
		in, out := make([]byte, n), make([]byte, 2*n)
		for i := range in {
			in[i] = byte(31*i + 1)
		}
		ui8toi16b(in, out)
		for i, v := range in {
			if out[2*i] != v-128 || out[2*i+1] != v-128 {
				t.Fatal(n, i)
			}
		}
	}
}
'''
