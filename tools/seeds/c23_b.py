id="c23-tie"; prop="C23"; pkg="dsp/dtmf"
edits=[("dsp/dtmf/dtmf.go", '''	for i, f := range val {
		if f > lrg {
			lrg = f
			idx = i
		}
	}
	return idx, lrg
''', '''	// From the back, so that the lowest frequency wins.
	for i := len(val) - 1; i >= 0; i-- {
		if f := val[i]; f > lrg {
			lrg = f
			idx = i
		}
	}
	return idx, lrg
''')]
needs="two frequencies of exactly equal magnitude (a block of one sample, two frequencies in the same bin)"
breaks="ties go to the highest frequency instead of the first"
demo='''
package dtmf

import "testing"

func TestVerifDemo(t *testing.T) {
	d := NewStandard(8000, 8)
	k, _ := d.Feed([]float32{1})
	if k != 0 {
		t.Errorf("key %d for an impulse, all magnitudes being equal", k)
	}
}
'''
