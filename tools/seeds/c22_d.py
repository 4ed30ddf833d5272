id="c22-pad"; prop="C22"; pkg="dsp"
edits=[("dsp/interpolate.go", '''	var samp float64
	low := math.Floor(x)
	lowInt := int(low)
	if lowInt < len(samples) {
		lowValue := samples[lowInt]
		var highValue float64
		if i := lowInt + 1; i >= len(samples) {
			highValue = 0
		} else {
			highValue = samples[i]
		}
		samp = lowValue + (x-low)*(highValue-lowValue)
	}
	return samp
''', '''	low := math.Floor(x)
	i := int(low)
	if i+1 == len(samples) {
		samples = append(samples, 0) // silence follows
	}
	return samples[i] + (x-low)*(samples[i+1]-samples[i])
''')]
needs="a block cut from a longer recording, and a position behind its last sample"
breaks="the sample that follows the block is set to zero, so the next block is interpolated from other samples"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	all := []float64{1, 2, 3, 4, 5, 6}
	if v := Linear(all[:3], 2.5); v != 1.5 {
		t.Fatal(v)
	}
	if v := Linear(all[2:], 1); v != 4 {
		t.Fatal(v)
	}
}
'''
