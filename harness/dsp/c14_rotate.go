package dsp

import nd "github.com/samuel/go-dsp/verifnd"

var (
	pRot  = func(s []complex64) []complex64 { return new(Rotate90Filter).Filter(s) }
	pIRot = func(s []int32) []int32 { return new(I32Rotate90Filter).Filter(s) }
)

func init() {
	jobs := func(t int) [][]int {
		var r [][]int
		for al := 0; al < 16; al += 4 {
			r = append(r, []int{vTier(t, 68, 260), al})
		}
		return r
	}
	nd.Reg("C14", "complex", H_C14_complex, jobs)
	nd.Reg("C14", "int32", H_C14_int32, jobs)
}

// vSame32: equal as numbers, or both NaN.
func vSame32(a, b float32, msg string, i int) {
	nd.AssertI(nd.Or(a == b, nd.And(a != a, b != b)), msg, i)
}

// H_C14_complex: sample k becomes sample k times i^k.
func H_C14_complex() {
	for n := 0; n <= nd.P(0); n += 4 {
		if n > 12 && n%32 > 4 && n%28 != 0 {
			continue
		}
		x := nd.C64s("x", n, nd.P(1))
		in := append([]complex64(nil), x...)
		y := pRot(x)
		nd.EqI(int64(len(y)), int64(n), "length", n)
		if n == 0 {
			continue
		}
		nd.Assert(&y[0] == &x[0], "the same slice is returned")
		for k := range in {
			re, im := real(in[k]), imag(in[k])
			switch k % 4 {
			case 1:
				re, im = -im, re
			case 2:
				re, im = -re, -im
			case 3:
				re, im = im, -re
			}
			vSame32(real(x[k]), re, "sample times i^k, real part", k)
			vSame32(imag(x[k]), im, "sample times i^k, imaginary part", k)
		}
		if n == 8 {
			pRot(x)
			pRot(x)
			pRot(x)
			for k := range in {
				vSame32(real(x[k]), real(in[k]), "four turns, real part", k)
				vSame32(imag(x[k]), imag(in[k]), "four turns, imaginary part", k)
			}
		}
	}
}

func H_C14_int32() {
	for n := 0; n <= nd.P(0); n += 4 {
		if n > 12 && n%32 > 4 && n%28 != 0 {
			continue
		}
		x := nd.I32s("x", 2*n, nd.P(1))
		in := append([]int32(nil), x...)
		y := pIRot(x)
		nd.EqI(int64(len(y)), int64(2*n), "length", n)
		if n == 0 {
			continue
		}
		nd.Assert(&y[0] == &x[0], "the same slice is returned")
		for k := 0; k < n; k++ {
			re, im := in[2*k], in[2*k+1]
			switch k % 4 {
			case 1:
				re, im = -im, re
			case 2:
				re, im = -re, -im
			case 3:
				re, im = im, -re
			}
			nd.EqI(int64(x[2*k]), int64(re), "sample times i^k, real part", k)
			nd.EqI(int64(x[2*k+1]), int64(im), "sample times i^k, imaginary part", k)
		}
		if n == 8 {
			pIRot(x)
			pIRot(x)
			pIRot(x)
			for k := range in {
				nd.EqI(int64(x[k]), int64(in[k]), "four turns", k)
			}
		}
	}
}
