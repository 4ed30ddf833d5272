package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	both := func(t int) [][]int { return [][]int{{0}, {1}} }
	nd.Reg("C11", "accuracy", H_C11_accuracy, both)
	nd.Reg("C11", "range", H_C11_range, both)
	nd.Reg("C11", "symmetry", H_C11_symmetry, both)
}

func vAtanFixed(k, y, x int) int {
	if k == 0 {
		return FastAtan2Fixed(y, x)
	}
	return Atan2LUT(y, x)
}

func vIntVector() (y, x int) {
	y, x = int(nd.I64("y")), int(nd.I64("x"))
	nd.Assume(nd.And(y >= -1<<31, y <= 1<<31))
	nd.Assume(nd.And(x >= -1<<31, x <= 1<<31))
	return
}

func H_C11_accuracy() {
	k := nd.P(0)
	y, x := vIntVector()
	nd.Assume(nd.Or(y != 0, x != 0))
	tol := 0.08
	if k == 1 {
		tol = 0.005
	}
	nd.Angle(float64(vAtanFixed(k, y, x))*(math.Pi/(1<<14)), float64(y), float64(x), tol, "angle", k)
}

func H_C11_range() {
	k := nd.P(0)
	y, x := vIntVector()
	nd.EqI(int64(vAtanFixed(k, 0, 0)), 0, "origin", k)
	nd.Assume(nd.Or(y != 0, x != 0))
	r := float64(vAtanFixed(k, y, x))
	if nd.Fork(y < 0) {
		nd.AngleIn(r, float64(y), float64(x), -(1 << 14), 0, "range", k)
		return
	}
	nd.AngleIn(r, float64(y), float64(x), 0, 1<<14, "range", k)
}

func H_C11_symmetry() {
	k := nd.P(0)
	// 33 bits
	y, x := int(nd.I64("y"))<<31>>31, int(nd.I64("x"))<<31>>31
	nd.Assume(nd.And(y > 0, y <= 1<<31))
	nd.Assume(nd.And(x >= -1<<31, x <= 1<<31))
	nd.EqI(int64(vAtanFixed(k, -y, x)), -int64(vAtanFixed(k, y, x)), "mirrored", k)
}
