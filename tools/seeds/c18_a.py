id="c18-one-order"; prop="C18"; pkg="dsp"
edits=[("dsp/filter.go", '''func (f *DCFilter32) FilterOne(x float32) float32 {
	w := x + f.a*f.w
	y := w - f.w
	f.w = w
	return y
}''', '''func (f *DCFilter32) FilterOne(x float32) float32 {
	// w - f.w, with one multiplication
	y := x + (f.a-1)*f.w
	f.w += y
	return y
}''')]
needs="FilterOne and Filter compared in the last bits (single precision)"
breaks="FilterOne rounds differently from Filter, so mixing the two is not bit-identical"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	f, g := NewDCFilter32(0.995), NewDCFilter32(0.995)
	x := make([]float32, 200)
	for i := range x {
		x[i] = float32((i*37)%101) / 7
	}
	y := make([]float32, len(x))
	f.Filter(x, y)
	for i, v := range x {
		if o := g.FilterOne(v); o != y[i] {
			t.Fatalf("sample %d: %v, Filter %v", i, o, y[i])
		}
	}
}
'''
