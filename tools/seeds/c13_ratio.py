id="c13-rational-carry"; prop="C13"; pkg="dsp"
edits=[("dsp/downsample.go", '''		samples[i2] = fi.sum * fastSlowRatio
		i2++
		fi.prevIndex -= fi.Fast
		fi.sum = 0.0
	}
	return samples[:i2]
''', '''		samples[i2] = fi.sum * fastSlowRatio
		i2++
		fi.prevIndex -= fi.Fast
		fi.sum = 0.0
	}
	if i2 == 0 {
		// No output yet: keep the phase inside one output period.
		fi.prevIndex %= fi.Slow
	}
	return samples[:i2]
''')]
needs="a rational filter called with a block too short to produce any output"
breaks="the accumulated steps are reduced modulo Slow after a call without outputs, so outputs come late"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	one := LowPassDownsampleRationalFilter{Fast: 5, Slow: 2}
	cut := LowPassDownsampleRationalFilter{Fast: 5, Slow: 2}
	x := []float32{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	want := one.Filter(append([]float32(nil), x...))
	var got []float32
	for _, v := range x {
		got = append(got, cut.Filter([]float32{v})...)
	}
	if len(got) != len(want) {
		t.Fatalf("%v, uncut %v", got, want)
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fatalf("%v, uncut %v", got, want)
		}
	}
}
'''
