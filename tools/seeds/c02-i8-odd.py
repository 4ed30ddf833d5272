id="c02-i8-odd"; prop="C02"; pkg="dsp"
edits=[("dsp/conversion.go", '''	for i := 0; i < n; i++ {
		output[i] = complex(
			float32(input[i*2]),
			float32(input[i*2+1]),
		)
	}
''', '''	// Two samples at a time.
	i := 0
	for ; i+1 < n; i += 2 {
		s := input[i*2 : i*2+4]
		output[i] = complex(float32(s[0]), float32(s[1]))
		output[i+1] = complex(float32(s[2]), float32(s[3]))
	}
	if i < n {
		s := input[len(input)-2:]
		output[i] = complex(float32(s[0]), float32(s[1]))
	}
''')]
needs="I8toc64 with an odd number of samples to convert and an input longer than that (an odd trailing byte, or an output shorter than the input)"
breaks="the last sample is taken from the end of the input instead of from its position"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	for n := 0; n < 9; n++ {
		for m := 0; m < 6; m++ {
			in, out := make([]int8, n), make([]complex64, m)
			for i := range in {
				in[i] = int8(i*7 - 20)
			}
			I8toc64(in, out)
			for i := 0; i < m && i < n/2; i++ {
				if want := complex(float32(in[2*i]), float32(in[2*i+1])); out[i] != want {
					t.Fatalf("lengths %d, %d: sample %d is %v, want %v", n, m, i, out[i], want)
				}
			}
		}
	}
}
'''
