id="c14-saturate"; prop="C14"; pkg="dsp"
edits=[("dsp/util.go", '''	for i := 0; i < len(samples); i += 8 {
		samples[i+2], samples[i+3] = -samples[i+3], samples[i+2]
		samples[i+4] = -samples[i+4]
		samples[i+5] = -samples[i+5]
		samples[i+6], samples[i+7] = samples[i+7], -samples[i+6]
	}
	return samples
}
''', '''	for i := 0; i < len(samples); i += 8 {
		samples[i+2], samples[i+3] = i32neg(samples[i+3]), samples[i+2]
		samples[i+4] = i32neg(samples[i+4])
		samples[i+5] = i32neg(samples[i+5])
		samples[i+6], samples[i+7] = samples[i+7], i32neg(samples[i+6])
	}
	return samples
}

// i32neg negates, without overflow.
func i32neg(v int32) int32 {
	if v == -1<<31 {
		return 1<<31 - 1
	}
	return -v
}
''')]
needs="the sample value -2147483648 at an odd index"
breaks="the most negative sample is changed by one, so four rotations no longer restore it"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	x := []int32{1, 2, -1 << 31, -1 << 31, 5, -1 << 31, 7, 8}
	y := append([]int32(nil), x...)
	f := &I32Rotate90Filter{}
	for i := 0; i < 4; i++ {
		y = f.Filter(y)
	}
	for i := range x {
		if x[i] != y[i] {
			t.Errorf("value %d: %d became %d", i, x[i], y[i])
		}
	}
}
'''
