id="c23-short-block"; prop="C23"; pkg="dsp/dtmf"
edits=[("dsp/dtmf/dtmf.go", '''	d.lowFreq.Reset()
	d.highFreq.Reset()
''', '''	if len(samples) > 0 {
		d.lowFreq.Reset()
		d.highFreq.Reset()
	}
''')]
needs="a call without samples after a call with some"
breaks="an empty block reports the key of the block before"
demo='''
package dtmf

import "testing"

func TestVerifDemo(t *testing.T) {
	d := NewStandard(8000, 8)
	d.Feed([]float32{0, 1, 0, -1, 0, 1, 0, -1})
	k, m := d.Feed(nil)
	if k != 0 || m != 0 {
		t.Errorf("silence is key %d, magnitude %v", k, m)
	}
}
'''
