package dtmf

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C33", "dtmf", H_C33_dtmf, func(t int) [][]int { return [][]int{{0, 4}, {1, 4}, {1, 7}} })
}

// H_C33_dtmf: two goroutines with a detector each.
func H_C33_dtmf() {
	mode, n := nd.P(0), nd.P(1)
	x := append([]float32(nil), nd.F32s("x", n, 0)...)
	for i := range x {
		nd.Assume(x[i] >= -1 && x[i] <= 1)
	}
	op := func() func() {
		d, y := New(StdLowFreq[:2], StdHighFreq[:2], 8000, n, nil), append([]float32(nil), x...)
		return func() { d.Feed(y) }
	}
	if mode == 0 {
		a, b := op(), op()
		nd.Par(a, b)
		return
	}
	nd.Par(func() { op()(); NewStandard(8000, n) }, func() { op()(); NewStandard(8000, n) })
}
