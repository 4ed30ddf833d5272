id="c12-keep-on-full"; prop="C12"; pkg="dsp"
edits=[("dsp/demod.go", '''	pre := fi.pre
	for i, inp := range input {
''', '''	if len(input) == 0 {
		// Nothing to demodulate: the next block starts afresh.
		fi.pre = 0
		return 0
	}
	pre := fi.pre
	for i, inp := range input {
''')]
needs="an empty block in the middle of a stream"
breaks="an empty call forgets the previous sample, so the next output differs from the uncut stream"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	x := []complex64{1 + 2i, 3 - 1i, -2 + 1i}
	want, got := make([]float32, 3), make([]float32, 3)
	var f, g FMDemodFilter
	f.Demodulate(x, want)
	g.Demodulate(x[:2], got)
	g.Demodulate(nil, nil)
	g.Demodulate(x[2:], got[2:])
	for i := range want {
		if got[i] != want[i] {
			t.Errorf("sample %d: %v, uncut %v", i, got[i], want[i])
		}
	}
}
'''
