package dtmf

import (
	"github.com/samuel/go-dsp/dsp"
	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	nd.Reg("C23", "feed", H_C23_feed, func(t int) [][]int {
		var r [][]int
		// low, high, block size, samples, samples of an earlier call, window
		for lo := 1; lo <= 4; lo++ {
			for hi := 1; hi <= 4; hi++ {
				r = append(r, []int{lo, hi, 3, 3, 2, 0})
			}
		}
		for _, n := range []int{0, 1, 2, 5, 6, 7, 11} {
			r = append(r, []int{2, 3, 6, n, 6, n % 2})
		}
		r = append(r, []int{5, 6, 4, 4, 9, 1}, []int{4, 4, 2, 2, 0, 2}, []int{4, 4, 8, 8, 1, 2})
		if t == 1 {
			r = append(r, []int{4, 4, 24, 24, 5, 2}, []int{4, 4, 40, 60, 50, 2}, []int{7, 5, 12, 9, 12, 0})
		}
		return r
	})
}

var vFreqs = []uint64{697, 941, 1209, 1336, 770, 852, 1477, 1633}

func vWindow(w []float32) {
	for i := range w {
		w[i] = float32(i+1) / 8
	}
}

// vBest: k is the first index of the largest of m, and v its value. The
// value is also a lower bound when nothing is above zero.
func vBest(m []float32, k int, v float32, msg string) {
	nd.Assert(k >= 0 && k < len(m), msg+": valid index")
	for i := range m {
		sel := k == i
		nd.AssertI(nd.Imp(sel, m[i] == v), msg+": value of the chosen one", i)
		for j := range m {
			if j < i {
				nd.AssertI(nd.Imp(sel, m[j] < m[i]), msg+": first of the largest", j)
			} else if j > i {
				nd.AssertI(nd.Imp(sel, m[j] <= m[i]), msg+": largest", j)
			}
		}
	}
}

func H_C23_feed() {
	nlo, nhi, bs, n, before, win := nd.P(0), nd.P(1), nd.P(2), nd.P(3), nd.P(4), nd.P(5)
	lo, hi := vFreqs[:nlo], vFreqs[len(vFreqs)-nhi:]
	var wf func([]float32)
	w := make([]float32, bs)
	switch win {
	case 0:
		wf = vWindow
		vWindow(w)
	case 1:
		dsp.HammingWindowF32(w)
	case 2:
		wf = dsp.HammingWindowF32
		dsp.HammingWindowF32(w)
	}
	const rate = 8000
	x, old := nd.F32s("x", n, 0), nd.F32s("old", before, 0)
	nd.Freeze()
	var d, d2 *DTMF
	// detectors of another kind around
	New(hi, lo, rate, bs, wf)
	New(lo, hi, 2*rate, bs, vWindow).Feed(make([]float32, bs))
	New(lo, hi, rate, bs+1, nil).Feed(make([]float32, 3))
	if win == 2 && nlo == 4 && nhi == 4 {
		d, d2 = NewStandard(rate, bs), NewStandard(rate, bs)
		lo, hi = StdLowFreq, StdHighFreq
	} else {
		d, d2 = New(lo, hi, rate, bs, wf), New(lo, hi, rate, bs, wf)
	}
	m := n
	if m > bs {
		m = bs
	}
	y := make([]float32, m)
	for i := range y {
		y[i] = x[i] * w[i]
	}
	gl, gh := dsp.NewGoertzel32(lo, rate, bs), dsp.NewGoertzel32(hi, rate, bs)
	gl.Feed(y)
	gh.Feed(y)
	ml, mh := gl.Magnitude(), gh.Magnitude()
	ok := true
	for _, v := range ml {
		ok = nd.And(ok, v >= 0)
	}
	for _, v := range mh {
		ok = nd.And(ok, v >= 0)
	}

	key0, thr0 := d2.Feed(append([]float32(nil), x...))
	nd.Assert(key0 >= 0 && key0 < nlo*nhi, "valid key")

	d.Feed(append([]float32(nil), old...))
	key, thr := d.Feed(append([]float32(nil), x...))
	nd.EqI(int64(key), int64(key0), "key after an earlier call", 0)
	nd.Eq32(thr, thr0, "magnitude after an earlier call", 0)

	// Magnitudes are squares: not negative unless the samples overflow.
	nd.Assume(ok)
	row, col := key/nhi, key%nhi
	tl, th := float32(0), float32(0)
	for i, v := range ml {
		tl = nd.Ite32(row == i, v, tl)
	}
	for i, v := range mh {
		th = nd.Ite32(col == i, v, th)
	}
	vBest(ml, row, tl, "row")
	vBest(mh, col, th, "column")
	nd.Assert(thr == nd.Ite32(th < tl, th, tl), "the smaller maximum is returned")
}
