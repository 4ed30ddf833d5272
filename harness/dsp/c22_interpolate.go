package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

// Positions are split into classes: [c, c+1) for c from -4 to len+3, and
// beyond that the ones below.
const (
	vHigh = 1000 + iota // [len+4, 2^63)
	vLow                // (-2^63, -4)
	vHuge               // 2^63 up to the largest number
	vHugeNeg
	vNaN
	vInf
	vInfNeg
)

func init() {
	jobs := func(t int) [][]int {
		var r [][]int
		for w := 0; w < 4; w++ {
			for n := 0; n <= vTier(t, 7, 12); n++ {
				for c := -4; c <= n+3; c++ {
					r = append(r, []int{w, n, c})
				}
				for c := vHigh; c <= vInfNeg && (t > 0 || n < 2 || n%3 == 2); c++ {
					r = append(r, []int{w, n, c})
				}
			}
		}
		return r
	}
	nd.Reg("C22", "double", H_C22_double, jobs)
	nd.Reg("C22", "single", H_C22_single, jobs)
	nd.Reg("C22", "sample", H_C22_sample, func(t int) [][]int {
		var r [][]int
		for w := 0; w < 2; w++ {
			for n := 1; n <= vTier(t, 6, 10); n++ {
				for c := 0; c < n; c++ {
					r = append(r, []int{w, n, c})
				}
			}
		}
		return r
	})
	nd.Reg("C22", "line", H_C22_line, func(t int) [][]int {
		var r [][]int
		for w := 0; w < 2; w++ {
			for n := 4; n <= vTier(t, 7, 12); n++ {
				for c := 1; c+2 < n; c++ {
					r = append(r, []int{w, n, c})
				}
			}
		}
		return r
	})
}

func vInterp64(w int, s []float64, x float64) float64 {
	switch w {
	case 0:
		return Linear(s, x)
	case 1:
		return Hermite4p3o(s, x)
	case 2:
		return Optimal2x4p4o(s, x)
	}
	return Optimal2x6p5o(s, x)
}

func vInterp32(w int, s []float32, x float32) float32 {
	switch w {
	case 0:
		return LinearF32(s, x)
	case 1:
		return Hermite4p3oF32(s, x)
	case 2:
		return Optimal2x4p4oF32(s, x)
	}
	return Optimal2x6p5oF32(s, x)
}

// vInside restricts x to its class; false for the classes without a value
// to compare with.
func vInside(x float64, n, c int) bool {
	switch c {
	case vHigh:
		nd.Assume(x >= float64(n+4))
		nd.Assume(x < 1<<63)
	case vLow:
		nd.Assume(x > -1<<63)
		nd.Assume(x < -4)
	case vHuge:
		nd.Assume(x >= 1<<63)
		nd.Assume(x <= math.MaxFloat64)
	case vHugeNeg:
		nd.Assume(x >= -math.MaxFloat64)
		nd.Assume(x <= -1<<63)
	case vNaN:
		nd.Assume(x != x)
		return false
	case vInf:
		nd.Assume(x > math.MaxFloat64)
		return false
	case vInfNeg:
		nd.Assume(x < -math.MaxFloat64)
		return false
	default:
		nd.Assume(x >= float64(c))
		nd.Assume(x < float64(c+1))
	}
	return true
}

// The published polynomials, around the sample before x: p is the window
// from p[0] = sample c-2 to p[5] = sample c+3, z is x-c.
func vPoly(w int, p [6]float64, z float64, k func(float64) float64) float64 {
	a, b, c, d := p[1], p[2], p[3], p[4]
	switch w {
	case 0:
		return b + z*(c-b)
	case 1:
		// Catmull-Rom
		return 0.5 * (2*b + z*(c-a) + z*z*(2*a-5*b+4*c-d) + z*z*z*(3*b-3*c+d-a))
	case 2:
		y := z - 0.5
		e1, o1, e2, o2 := c+b, c-b, d+a, d-a
		return e1*k(0.45645918406487612) + e2*k(0.04354173901996461) +
			y*(o1*k(0.47236675362442071)+o2*k(0.17686613581136501)) +
			y*y*(e2*k(0.25371918651882464)-e1*k(0.253674794204558521)) +
			y*y*y*(o2*k(0.11952965967158000)-o1*k(0.37917091811631082)) +
			y*y*y*y*(e1*k(0.04252164479749607)-e2*k(0.04289144034653719))
	}
	y := z - 0.5
	e1, o1, e2, o2, e3, o3 := c+b, c-b, d+a, d-a, p[5]+p[0], p[5]-p[0]
	return e1*k(0.40513396007145713) + e2*k(0.09251794438424393) + e3*k(0.00234806603570670) +
		y*(o1*k(0.28342806338906690)+o2*k(0.21703277024054901)+o3*k(0.01309294748731515)) +
		y*y*(e2*k(0.16187844487943592)+e3*k(0.02946017143111912)-e1*k(0.191337682540351941)) +
		y*y*y*(o3*k(0.03399271444851909)-o1*k(0.16471626190554542)-o2*k(0.00154547203542499)) +
		y*y*y*y*(e1*k(0.03845798729588149)-e2*k(0.05712936104242644)+e3*k(0.01866750929921070)) +
		y*y*y*y*y*(o1*k(0.04317950185225609)-o2*k(0.01802814255926417)+o3*k(0.00152170021558204))
}

func vDouble(x float64) float64 { return x }

func H_C22_double() {
	w, n, c := nd.P(0), nd.P(1), nd.P(2)
	s := nd.F64s("s", n, 0)
	nd.Freeze()
	x := nd.F64("x")
	val := vInside(x, n, c)
	y := vInterp64(w, s, x)
	// zeros beyond the slice change nothing, nor do samples out of reach
	if val && w > 0 && n > 0 {
		long := append(append([]float64(nil), s...), make([]float64, 4)...)
		nd.Eq64(vInterp64(w, long, x), y, "zeros after the slice", 0)
	}
	if !val {
		return
	}
	var p [6]float64
	far := make([]float64, n)
	for i := range far {
		far[i] = float64(i) + 1000
	}
	reach := 1
	if w == 0 {
		reach = 0
	}
	if w == 3 {
		reach = 2
	}
	for i := range p {
		if j := c - 2 + i; c < 1000 && j >= 0 && j < n {
			p[i] = s[j]
			if j >= c-reach && j <= c+1+reach {
				far[j] = s[j]
			}
		}
	}
	nd.Eq64(vInterp64(w, far, x), y, "far samples", 0)
	if c >= 1000 || w == 0 && (c < 0 || c >= n) {
		nd.Bound(y, 0, 1e-300, "zero away from the slice", 0)
		return
	}
	z := x - float64(c)
	m := 0.0
	for _, v := range p {
		m += math.Abs(v)
	}
	nd.Formula(y, vPoly(w, p, z, vDouble), m, 1e-12, "polynomial", 0)
	for _, v := range s {
		nd.Assume(v >= -1)
		nd.Assume(v <= 1)
	}
	nd.Bound(y, vPoly(w, p, z, vDouble), 1e-13, "polynomial within rounding", 0)
}

func H_C22_single() {
	w, n, c := nd.P(0), nd.P(1), nd.P(2)
	s := nd.F32s("s", n, 0)
	nd.Freeze()
	x := nd.F32("x")
	val := vInside(float64(x), n, c)
	y := vInterp32(w, s, x)
	if val && w > 0 && n > 0 {
		long := append(append([]float32(nil), s...), make([]float32, 4)...)
		nd.Eq32(vInterp32(w, long, x), y, "zeros after the slice", 0)
	}
	if !val {
		return
	}
	var p [6]float64
	far := make([]float32, n)
	for i := range far {
		far[i] = float32(i) + 1000
	}
	reach := 1
	if w == 0 {
		reach = 0
	}
	if w == 3 {
		reach = 2
	}
	for i := range p {
		if j := c - 2 + i; c < 1000 && j >= 0 && j < n {
			p[i] = float64(s[j])
			if j >= c-reach && j <= c+1+reach {
				far[j] = s[j]
			}
		}
	}
	nd.Eq32(vInterp32(w, far, x), y, "far samples", 0)
	if c >= 1000 || w == 0 && (c < 0 || c >= n) {
		nd.Bound(float64(y), 0, 1e-38, "zero away from the slice", 0)
		return
	}
	for _, v := range s {
		nd.Assume(v >= -1)
		nd.Assume(v <= 1)
	}
	z := float64(x) - float64(c)
	nd.Bound(float64(y), vPoly(w, p, z, vDouble), 2e-5, "polynomial within rounding", 0)
}

// H_C22_sample: at an integer position inside the slice, Linear and Hermite
// give the sample itself.
func H_C22_sample() {
	w, n, c := nd.P(0), nd.P(1), nd.P(2)
	s := nd.F64s("s", n, 0)
	t := nd.F32s("t", n, 0)
	for i := range s {
		nd.Assume(s[i] >= -1e300)
		nd.Assume(s[i] <= 1e300)
		nd.Assume(t[i] >= -1e37)
		nd.Assume(t[i] <= 1e37)
	}
	y := vInterp64(w, s, float64(c))
	u := vInterp32(w, t, float32(c))
	nd.Assert(y == s[c], "the sample at its position")
	nd.Assert(u == t[c], "the sample at its position (float32)")
}

// H_C22_line: between interior points a straight line stays one.
func H_C22_line() {
	w, n, c := nd.P(0), nd.P(1), nd.P(2)
	a, b, x32 := nd.F64("a"), nd.F64("b"), nd.F32("x")
	x := float64(x32)
	nd.Assume(a >= -1)
	nd.Assume(a <= 1)
	nd.Assume(b >= -1)
	nd.Assume(b <= 1)
	nd.Assume(x >= float64(c))
	nd.Assume(x < float64(c+1))
	s := make([]float64, n)
	t := make([]float32, n)
	for i := range s {
		s[i] = a + b*float64(i)
		t[i] = float32(s[i])
	}
	nd.Bound(vInterp64(w, s, x), a+b*x, 1e-12, "straight line", 0)
	nd.Bound(float64(vInterp32(w, t, x32)), a+b*x, 1e-4, "straight line (float32)", 0)
}
