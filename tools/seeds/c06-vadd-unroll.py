id="c06-vadd-unroll"; prop="C06"; pkg="dsp"
edits=[("dsp/math32.go", '''	for i, v := range input[:n] {
		output[i] += v
	}
}

func VAddC64''', '''	// Add eight, then four samples at a time, then the ones left over.
	i := 0
	for ; n-i >= 8; i += 8 {
		in, out := input[i:i+8], output[i:i+8]
		for j, v := range in {
			out[j] += v
		}
	}
	if n&4 != 0 {
		in, out := input[i:i+4], output[i:i+4]
		out[0], out[1], out[2], out[3] = out[0]+in[0], out[1]+in[1], out[2]+in[2], out[3]+in[3]
		i += 4
	}
	switch n - i {
	case 3:
		output[i+2] += input[i+2]
		output[i+1] += input[i+1]
	case 2:
		output[i+1] += input[i+1]
		output[i] += input[i]
	case 1:
		output[i] += input[i]
	}
}

func VAddC64''')]
needs="VAddF32 with a length that leaves three samples over after the blocks of eight and four (n%4 == 3)"
breaks="the first of the three left-over samples is not added"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		in, out := make([]float32, n), make([]float32, n)
		for i := range in {
			in[i], out[i] = float32(i+1), 100
		}
		VAddF32(in, out)
		for i := range in {
			if out[i] != float32(i+101) {
				t.Fatalf("length %d, element %d: %g", n, i, out[i])
			}
		}
	}
}
'''
