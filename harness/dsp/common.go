package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

var _ = nd.P

// vShape lists the ways a pair of lengths can have minimum n.
func vShape(n, k int) (int, int) {
	switch k {
	case 0:
		return n, n
	case 1:
		return n + 1, n
	case 2:
		return n, n + 1
	case 3:
		return n + 37, n
	case 4:
		return n, n + 37
	case 5:
		return n + 5, n
	}
	return n, n + 5
}

// vJobs makes parameter vectors {flags, align, lo, hi, shapes}: for every
// feature setting and alignment, length ranges of about chunk lengths.
func vJobs(flags, aligns, esz, hi, chunk, shapes int) [][]int {
	var r [][]int
	for f := 0; f < 1<<uint(flags); f++ {
		for a := 0; a < aligns; a++ {
			for lo := 0; lo <= hi; lo += chunk {
				h := lo + chunk - 1
				if h > hi {
					h = hi
				}
				r = append(r, []int{f, a * esz, lo, h, shapes})
			}
		}
	}
	// and lengths where work might be cut into blocks
	top := 1<<uint(flags) - 1
	for i, n := range []int{128, 255, 256, 257, 511, 512, 1024, 1031, 4096, 4099} {
		if n > hi && (n < 1025 || flags == 0) {
			r = append(r, []int{top * (i & 1), i % aligns * esz, n, n, 1})
		}
	}
	return r
}

func vTier(t, quick, thorough int) int {
	if t == 1 {
		return thorough
	}
	return quick
}

// vSkip thins out the unequal-length shapes in the quick tier.
func vSkip(n, k, sh int) bool { return k > 0 && n%7 != 0 && n%32 != 31 && sh < 5 }

func vAbs(x float64) float64 {
	return math.Abs(x)
}

// vFormulaC is nd.Formula for both parts of a complex number.
func vFormulaC(got, want complex128, scale, tol float64, msg string, i int) {
	nd.Formula(real(got), real(want), scale, tol, msg+" re", i)
	nd.Formula(imag(got), imag(want), scale, tol, msg+" im", i)
}

// vTame: every value is zero or of ordinary size, so that a formula that
// holds over the reals can be compared with what floats compute.
func vTame(vs ...float64) bool {
	ok := true
	for _, v := range vs {
		a := math.Abs(v)
		ok = nd.And(ok, nd.Or(v == 0, nd.And(a >= 1e-3, a <= 1e3)))
	}
	return ok
}

func vTame32(vs ...float32) bool {
	ok := true
	for _, v := range vs {
		ok = nd.And(ok, vTame(float64(v)))
	}
	return ok
}

// vScale makes a formula apply to tame inputs only.
func vScale(tame bool, scale float64) float64 { return nd.Ite64(tame, scale, math.Inf(1)) }

func vWithin(x, s float64) { nd.Assume(nd.And(x >= -s, x <= s)) }

func vBoundC(got, want complex128, tol float64, msg string, i int) {
	nd.Bound(real(got), real(want), tol, msg+" re", i)
	nd.Bound(imag(got), imag(want), tol, msg+" im", i)
}
