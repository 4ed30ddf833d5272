id="c23-high-tones"; prop="C23"; pkg="dsp/dtmf"
edits=[("dsp/dtmf/dtmf.go", '''	StdHighFreq = []uint64{1209, 1336, 1477, 1633}
''', '''	StdHighFreq = []uint64{1209, 1336, 1447, 1633}
''')]
needs="a block short or long enough for 1447 Hz and 1477 Hz to fall into different bins"
breaks="keys of the third column are looked for at the wrong frequency"
demo='''
package dtmf

import (
	"math"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	const rate, n = 8000, 800
	d := NewStandard(rate, n)
	x := make([]float32, n)
	for i := range x {
		x[i] = float32(math.Sin(2*math.Pi*770*float64(i)/rate) + math.Sin(2*math.Pi*1477*float64(i)/rate))
	}
	if k, mag := d.Feed(x); Keypad[k] != '6' || mag < 1000 {
		t.Fatal(string(Keypad[k]), mag)
	}
}
'''
