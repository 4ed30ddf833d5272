package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	both := func(t int) [][]int { return [][]int{{0}, {1}} }
	nd.Reg("C10", "accuracy", H_C10_accuracy, both)
	nd.Reg("C10", "range", H_C10_range, both)
	nd.Reg("C10", "axes", H_C10_axes, both)
	nd.Reg("C10", "symmetry", H_C10_symmetry, both)
}

func vAtan(k int, y, x float32) float32 {
	if k == 0 {
		return FastAtan2(y, x)
	}
	return FastAtan2_2(y, x)
}

// vVector is any vector whose larger part is between 1e-6 and 1e18.
func vVector() (y, x float32) {
	y, x = nd.F32("y"), nd.F32("x")
	nd.Assume(nd.And(y >= -1e18, y <= 1e18))
	nd.Assume(nd.And(x >= -1e18, x <= 1e18))
	nd.Assume(nd.Or(nd.Or(y >= 1e-6, y <= -1e-6), nd.Or(x >= 1e-6, x <= -1e-6)))
	return
}

func H_C10_accuracy() {
	k := nd.P(0)
	y, x := vVector()
	tol := 0.0102
	if k == 1 {
		tol = 0.005
	}
	nd.Angle(float64(vAtan(k, y, x)), float64(y), float64(x), tol, "angle", k)
}

// H_C10_range: within pi, and on the side of y, up to 1e-5.
func H_C10_range() {
	k := nd.P(0)
	y, x := vVector()
	r := float64(vAtan(k, y, x))
	switch {
	case nd.Fork(y > 0):
		nd.AngleIn(r, float64(y), float64(x), -1e-5, math.Pi+1e-5, "range", k)
	case nd.Fork(y < 0):
		nd.AngleIn(r, float64(y), float64(x), -math.Pi-1e-5, 1e-5, "range", k)
	default:
		nd.AngleIn(r, float64(y), float64(x), -math.Pi-1e-5, math.Pi+1e-5, "range", k)
	}
}

func H_C10_axes() {
	k := nd.P(0)
	y := nd.F32("y")
	nd.Assume(nd.And(y > 0, y <= math.MaxFloat32))
	nd.Eq32(vAtan(k, y, 0), math.Pi/2, "up", 0)
	nd.Eq32(vAtan(k, -y, 0), -math.Pi/2, "down", 0)
	z := float32(math.Copysign(0, -1))
	for i, v := range [][2]float32{{0, 0}, {0, z}, {z, 0}, {z, z}} {
		nd.Assert(vAtan(k, v[0], v[1]) == 0, "origin")
		nd.Eq32(vAtan(k, y, v[1]), math.Pi/2, "up", i)
	}
}

func H_C10_symmetry() {
	k := nd.P(0)
	y, x := vVector()
	nd.Assume(y > 0)
	nd.Eq32(vAtan(k, -y, x), -vAtan(k, y, x), "mirrored", k)
}
