id="c19-reset32"; prop="C19"; pkg="dsp"
edits=[("dsp/goertzel.go", '''func (g *Goertzel32) Reset() {
	for _, freq := range g.freq {
		freq.q1 = 0.0
		freq.q2 = 0.0
	}
}''', '''func (g *Goertzel32) Reset() {
	for i, freq := range g.freq {
		if g.mag[i] != 0 {
			freq.q1, freq.q2 = 0.0, 0.0
		}
		g.mag[i], g.cplx[i] = 0, 0
	}
}''')]
needs="Reset of a Goertzel32 whose magnitude was not read since it was fed"
breaks="the state survives Reset"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	g, h := NewGoertzel32([]uint64{1000}, 8000, 8), NewGoertzel32([]uint64{1000}, 8000, 8)
	x := []float32{1, 2, 3, 1, -2, 4, 0, 1}
	g.Feed(x[:3])
	g.Reset()
	g.Feed(x)
	h.Feed(x)
	if a, b := g.Complex()[0], h.Complex()[0]; a != b {
		t.Fatalf("after Reset %v, new %v", a, b)
	}
}
'''
