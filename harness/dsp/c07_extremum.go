package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

// The portable versions, set by c07_ref.go.
var pVMaxF32, pVMinF32 = VMaxF32, VMinF32

func init() {
	jobs := func(t int) [][]int {
		var r [][]int
		for f := 0; f < 1<<vNumFlags; f++ {
			for al := 0; al < 32; al += vTier(t, 12, 4) {
				r = append(r, []int{f, al, 0, vTier(t, 70, 140), vTier(t, 11, 3)})
			}
		}
		for i, n := range []int{128, 130} {
			r = append(r, []int{(1<<vNumFlags - 1) * (i & 1), 8 * (i % 4), n, n, n})
		}
		return r
	}
	nd.Reg("C07", "vmaxf32", H_C07_vmaxf32, jobs)
	nd.Reg("C07", "vminf32", H_C07_vminf32, jobs)
}

func H_C07_vmaxf32() {
	vSetFlags(nd.P(0))
	f := VMaxF32
	if nd.P(0) < 0 {
		f = pVMaxF32
	}
	al, lo, hi, step := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		if n > 5 && (n+1)%16 > 2 && n%step != 0 {
			continue
		}
		in := nd.F32s("in", n, al)
		nd.Freeze()
		for _, v := range in {
			nd.Assume(v == v)
		}
		m := f(in)
		if n == 0 {
			nd.Eq32(m, float32(math.Inf(-1)), "VMaxF32 of nothing", 0)
			continue
		}
		all, some := true, false
		for _, v := range in {
			all = nd.And(all, v <= m)
			some = nd.Or(some, v == m)
		}
		nd.AssertI(all, "VMaxF32 is at least every element", n)
		nd.AssertI(some, "VMaxF32 is an element", n)
	}
}

func H_C07_vminf32() {
	vSetFlags(nd.P(0))
	f := VMinF32
	if nd.P(0) < 0 {
		f = pVMinF32
	}
	al, lo, hi, step := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		if n > 5 && (n+1)%16 > 2 && n%step != 0 {
			continue
		}
		in := nd.F32s("in", n, al)
		nd.Freeze()
		for _, v := range in {
			nd.Assume(v == v)
		}
		m := f(in)
		if n == 0 {
			nd.Eq32(m, float32(math.Inf(1)), "VMinF32 of nothing", 0)
			continue
		}
		all, some := true, false
		for _, v := range in {
			all = nd.And(all, v >= m)
			some = nd.Or(some, v == m)
		}
		nd.AssertI(all, "VMinF32 is at most every element", n)
		nd.AssertI(some, "VMinF32 is an element", n)
	}
}
