id="c15-short-history"; prop="C15"; pkg="dsp"
edits=[("dsp/filter.go", '''func (f *IIRFilter) Filter(input, output []float64) {
	for i, s := range input {
''', '''func (f *IIRFilter) Filter(input, output []float64) {
	if n := len(f.pIn); n > 1 && len(input) >= n {
		f.filterBlock(input, output)
		return
	}
	for i, s := range input {
''',),("dsp/filter.go", '''func (f *ComplexIIRFilter32) Filter(''', '''// filterBlock filters a block not shorter than the history, which is
// updated once at the end.
func (f *IIRFilter) filterBlock(input, output []float64) {
	n := len(f.pIn)
	in := make([]float64, n+len(input))
	out := make([]float64, n+len(input))
	for j := range f.pIn {
		in[n-1-j], out[n-1-j] = f.pIn[j], f.pOut[j]
	}
	copy(in[n:], input)
	for i, s := range input {
		sum := f.bCoef[0] * s
		for j := 1; j <= n; j++ {
			sum += f.bCoef[j]*in[n+i-j] - f.aCoef[j]*out[n+i-j]
		}
		out[n+i] = sum
		output[i] = sum
	}
	for j := range f.pIn {
		f.pIn[j] = in[len(in)-1-j]
		f.pOut[j] = out[len(input)-1-j]
	}
}

func (f *ComplexIIRFilter32) Filter(''')]
needs="an IIRFilter of order 2 or more, a block at least as long as the order, and a further block"
breaks="the output history kept for the next call is taken from the wrong place (n samples too early)"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	b, a := []float64{1, 2, 0.5}, []float64{1, -0.5, 0.25}
	x := []float64{1, 2, 3, 4, 5, 6, 7, 8}
	one, cut := NewIIRFilter(b, a), NewIIRFilter(b, a)
	want, got := make([]float64, 8), make([]float64, 8)
	one.Filter(x, want)
	cut.Filter(x[:4], got[:4])
	cut.Filter(x[4:], got[4:])
	for i := range want {
		if got[i] != want[i] {
			t.Fatalf("%v, uncut %v", got, want)
		}
	}
}
'''
