id='c22-linear-edge'
prop='C22'
pkg='dsp'
edits=[('dsp/interpolate.go', '\t\tvar highValue float64\n\t\tif i := lowInt + 1; i >= len(samples) {\n\t\t\thighValue = 0\n', '\t\tvar highValue float64\n\t\tif i := lowInt + 1; i >= len(samples) {\n\t\t\thighValue = lowValue\n')]
needs='a position after the last sample but before len'
breaks='Linear holds the last sample where the samples outside count as zero'
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	if y := Linear([]float64{0, 8}, 1.5); y != 4 {
		t.Errorf("half way past the last sample: %v", y)
	}
}
'''
