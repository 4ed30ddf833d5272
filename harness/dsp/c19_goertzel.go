package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	nd.Reg("C19", "dft", H_C19_dft, func(t int) [][]int {
		var r [][]int
		rates := []int{8000, 44100, 11}
		for kind := 0; kind < 3; kind++ {
			for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 11, 12, 16} {
				for k := 0; k <= n; k++ {
					if n > 8 && t == 0 && k%3 != 1 && k != 0 && k != n {
						continue
					}
					r = append(r, []int{kind, n, k, rates[(n+k)%3], 1})
				}
			}
			r = append(r, []int{kind, 8, 3, 2048000, 32768}, []int{kind, 20, 7, 8000, 1}, []int{kind, 32, 31, 48000, 1}, []int{kind, 64, 5, 48000, 1})
			if t == 1 && kind < 2 {
				r = append(r, []int{kind, 205, 18, 8000, 1}, []int{kind, 205, 38, 8000, 1})
			}
			if t == 1 {
				for k := 0; k <= 32; k += 5 {
					r = append(r, []int{kind, 32, k, 48000, 1})
				}
			}
		}
		return r
	})
	nd.Reg("C19", "cut", H_C19_cut, func(t int) [][]int {
		var r [][]int
		n := vTier(t, 6, 12)
		for kind := 0; kind < 3; kind++ {
			for a := 0; a <= n; a++ {
				for b := a; b <= n; b += 2 {
					r = append(r, []int{kind, n, a, b})
				}
			}
			r = append(r, []int{kind, vTier(t, 20, 40), 7, 13})
		}
		return r
	})
	nd.Reg("C19", "bank", H_C19_bank, func(t int) [][]int {
		var r [][]int
		for kind := 0; kind < 3; kind++ {
			for n := 0; n <= vTier(t, 5, 9); n++ {
				for m := 0; m <= vTier(t, 3, 6); m++ {
					r = append(r, []int{kind, n, m})
				}
			}
		}
		return r
	})
}

// A vGoertzel drives one of the three kinds with complex numbers.
type vGoertzel struct {
	kind int
	g    *Goertzel
	g32  *Goertzel32
	gc   *ComplexGoertzel
}

func vNewGoertzel(kind int, f []uint64, rate, block int) *vGoertzel {
	v := &vGoertzel{kind: kind}
	switch kind {
	case 0:
		v.g = NewGoertzel(f, rate, block)
	case 1:
		v.g32 = NewGoertzel32(f, rate, block)
	default:
		v.gc = NewComplexGoertzel(f, rate, block)
	}
	return v
}

func (v *vGoertzel) reset() {
	switch v.kind {
	case 0:
		v.g.Reset()
	case 1:
		v.g32.Reset()
	default:
		v.gc.Reset()
	}
}

func (v *vGoertzel) feed(re []float64, r32 []float32, c []complex128) {
	switch v.kind {
	case 0:
		v.g.Feed(re)
	case 1:
		v.g32.Feed(r32)
	default:
		v.gc.Feed(c)
	}
}

func (v *vGoertzel) result(i int) (complex128, float64) {
	switch v.kind {
	case 0:
		return v.g.Complex()[i], v.g.Magnitude()[i]
	case 1:
		return complex128(v.g32.Complex()[i]), float64(v.g32.Magnitude()[i])
	}
	return v.gc.Complex()[i], v.gc.Magnitude()[i]
}

// vSamples is a block of n samples of the kind.
func vSamples(kind int, name string, n int) (re []float64, r32 []float32, c []complex128) {
	switch kind {
	case 0:
		re = nd.F64s(name, n, 0)
	case 1:
		r32 = nd.F32s(name, n, 0)
	default:
		c = nd.C128s(name, n, 0)
	}
	return
}

func vPart(kind int, re []float64, r32 []float32, c []complex128, a, b int) ([]float64, []float32, []complex128) {
	switch kind {
	case 0:
		return re[a:b], nil, nil
	case 1:
		return nil, r32[a:b], nil
	}
	return nil, nil, c[a:b]
}

// H_C19_dft: for every frequency nearest to bin k and every block of samples
// within the range, Complex is bin k of the DFT and Magnitude its square.
func H_C19_dft() {
	kind, n, k, rate, s := nd.P(0), nd.P(1), nd.P(2), nd.P(3), float64(nd.P(4))
	// the integers f with |f*n/rate - k| < 1/2
	lo := ((2*k-1)*rate)/(2*n) + 1
	if k == 0 {
		lo = 0
	}
	hi := ((2*k+1)*rate - 1) / (2 * n)
	if lo > hi {
		return
	}
	f := nd.I64("f")
	nd.Assume(nd.And(f >= int64(lo), f <= int64(hi)))
	re, r32, c := vSamples(kind, "x", n)
	nd.Freeze()
	x := make([]complex128, n)
	for i := range x {
		switch kind {
		case 0:
			x[i] = complex(re[i], 0)
		case 1:
			nd.Assume(nd.And(r32[i] >= -float32(s), r32[i] <= float32(s)))
			x[i] = complex(float64(r32[i]), 0)
		default:
			x[i] = c[i]
			vWithin(imag(x[i]), s)
		}
		if kind != 1 {
			vWithin(real(x[i]), s)
		}
	}
	mid := uint64(lo+hi) / 2
	for i := 0; i < 3; i++ {
		// others around
		vNewGoertzel(i, []uint64{mid}, rate, n+1)
		vNewGoertzel(i, []uint64{mid}, 2*rate+1, n)
		vNewGoertzel(i, []uint64{mid + uint64(rate/n) + 1}, rate, n)
	}
	own := []uint64{uint64(f)}
	g := vNewGoertzel(kind, own, rate, n)
	own[0] = 0
	g.feed(re, r32, c)
	got, mag := g.result(0)
	var wr, wi float64
	for i, v := range x {
		a := 2 * math.Pi * float64(k*i%n) / float64(n)
		co, si := math.Cos(a), math.Sin(a)
		wr += real(v)*co + imag(v)*si
		wi += imag(v)*co - real(v)*si
	}
	tol := 1e-11
	if kind == 1 {
		tol = 3e-7
	}
	fn := float64(n) * s
	nd.Bound(real(got), wr, tol*fn, "real part", k)
	nd.Bound(imag(got), wi, tol*fn, "imaginary part", k)
	if n > 32 || n > 20 && kind == 2 {
		return // too many products
	}
	nd.Bound(mag, wr*wr+wi*wi, 4*tol*fn*fn, "magnitude", k)
}

// H_C19_cut: x in three calls, after Reset from any state, against one call
// of a new filter.
func H_C19_cut() {
	kind, n, a, b := nd.P(0), nd.P(1), nd.P(2), nd.P(3)
	re, r32, c := vSamples(kind, "x", n)
	re1, r321, c1 := vSamples(kind, "y", 3)
	nd.Freeze()
	fs := []uint64{697, 1209}
	g, h := vNewGoertzel(kind, fs, 8000, n+2), vNewGoertzel(kind, fs, 8000, n+2)
	g.feed(re, r32, c)
	h.feed(re1, r321, c1)
	h.result(0)
	h.reset()
	for _, p := range [][2]int{{0, a}, {a, b}, {b, n}} {
		h.feed(vPart(kind, re, r32, c, p[0], p[1]))
		if p[0] == a {
			h.result(1) // looking changes nothing
		}
	}
	for i := range fs {
		u, um := g.result(i)
		v, vm := h.result(i)
		nd.EqC128(v, u, "cut", i)
		nd.Eq64(vm, um, "cut magnitude", i)
	}
	g.reset()
	h = vNewGoertzel(kind, fs, 8000, n+2)
	for i := range fs {
		u, um := g.result(i)
		v, vm := h.result(i)
		nd.EqC128(u, v, "reset", i)
		nd.Eq64(um, vm, "reset magnitude", i)
	}
}

// H_C19_bank: each frequency of a bank against a filter of its own; repeated
// frequencies, and frequencies sharing a bin, too.
func H_C19_bank() {
	kind, n, m := nd.P(0), nd.P(1), nd.P(2)
	fs := []uint64{1100, 300, 3999, 1100, 0, 301}[:m]
	re, r32, c := vSamples(kind, "x", n)
	nd.Freeze()
	g := vNewGoertzel(kind, fs, 8000, 24)
	g.feed(re, r32, c)
	for i, f := range fs {
		h := vNewGoertzel(kind, []uint64{f}, 8000, 24)
		h.feed(re, r32, c)
		u, um := g.result(i)
		v, vm := h.result(0)
		nd.EqC128(u, v, "bank", i)
		nd.Eq64(um, vm, "bank magnitude", i)
	}
	for i, want := range []int{len(fs)} {
		switch kind {
		case 0:
			nd.EqI(int64(len(g.g.Magnitude())), int64(want), "results", i)
			nd.EqI(int64(len(g.g.Complex())), int64(want), "results", i)
		case 1:
			nd.EqI(int64(len(g.g32.Magnitude())), int64(want), "results", i)
			nd.EqI(int64(len(g.g32.Complex())), int64(want), "results", i)
		default:
			nd.EqI(int64(len(g.gc.Magnitude())), int64(want), "results", i)
			nd.EqI(int64(len(g.gc.Complex())), int64(want), "results", i)
		}
	}
}
