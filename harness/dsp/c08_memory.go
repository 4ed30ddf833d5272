package dsp

import (
	"unsafe"

	nd "github.com/samuel/go-dsp/verifnd"
)

func vCallABI0(fn uintptr, args *[16]uint64) bool
func vFuncAddr(i int) uintptr

const (
	c08_Ui8toi16 = 0
	c08_Ui8toi16b = 1
	c08_Ui8tof32 = 2
	c08_I8tof32 = 3
	c08_Ui8toc64 = 4
	c08_F32toi16 = 5
	c08_F32toi16ble = 6
	c08_I16ToBLE = 7
	c08_I16bleToF64 = 8
	c08_I16bleToF32 = 9
	c08_VMulC64xF32 = 10
	c08_VScaleF32 = 11
	c08_VAbsC64 = 12
	c08_VMaxF32 = 13
	c08_VMinF32 = 14
	c08_FastAtan2 = 15
	c08_FastAtan2_2 = 16
)

// c08call runs kernel i on the argument words, natively through a call that
// watches the frame pointer (symbolically the engine watches it).
func c08slice(a *[16]uint64, at int, p unsafe.Pointer, n int) {
	a[at], a[at+1], a[at+2] = uint64(uintptr(p)), uint64(n), uint64(n)
}

func c08abi(i int, a *[16]uint64, what string, n int) {
	nd.AssertI(vCallABI0(vFuncAddr(i), a), "frame pointer preserved by "+what, n)
}

func init() {
	jobs := func(t int) [][]int {
		var r [][]int
		for f := 0; f < 1<<vNumFlags; f++ {
			for al := 0; al < 16; al += vTier(t, 4, 2) {
				r = append(r, []int{f, al, 0, vTier(t, 70, 140), vTier(t, 7, 3)})
			}
		}
		for i, n := range []int{128, 255, 257, 512, 1025} {
			r = append(r, []int{(1<<vNumFlags - 1) * (i & 1), 4 * (i % 4), n, n, n})
		}
		return r
	}
	nd.Reg("C08", "bytes", H_C08_bytes, jobs)
	nd.Reg("C08", "floats", H_C08_floats, jobs)
	nd.Reg("C08", "complex", H_C08_complex, jobs)
}

// c08lens lists lengths: all small ones, those about multiples of the block
// sizes, and every step-th.
func c08lens(f func(n, ni, no int)) {
	lo, hi, step := nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		if n > 5 && (n+1)%16 > 2 && n%step != 0 {
			continue
		}
		f(n, n, n)
		f(n, n+1+n%3, n)
		f(n, n, n+1+n%5)
		f(n, n+40, n)
		f(n, n, n+40)
	}
}

func H_C08_bytes() {
	vSetFlags(nd.P(0))
	al := nd.P(1)
	c08lens(func(n, ni, no int) {
		in := nd.Bytes("in", ni, (al*3+n)%16)
		nd.Freeze()
		// bytes to 16-bit samples
		o16 := nd.I16s("o16", no, al)
		Ui8toi16(in, o16)
		b := nd.Bytes("ob", no, al+n)
		Ui8toi16b(in, b)
		// bytes to floats
		f := nd.F32s("f", no, al)
		Ui8tof32(in, f)
		I8tof32(in, f)
		c := nd.C64s("c", no/2, al)
		Ui8toc64(in, c)
		s := nd.I8s("s", ni, n%16)
		I8toc64(s, c)
		// little-endian samples
		fs := nd.F32s("fs", no/2, al)
		scale := nd.F32("scale")
		I16bleToF32(in, fs, scale)
		I32bleToF32(in, fs, scale)
		d := nd.F64s("d", no/2, al)
		I16bleToF64(in, d, float64(scale))
		if !nd.Symbolic() {
			var a [16]uint64
			if ni > 0 && no > 1 {
				c08slice(&a, 0, unsafe.Pointer(&in[0]), ni)
				c08slice(&a, 3, unsafe.Pointer(&o16[0]), no)
				c08abi(c08_Ui8toi16, &a, "Ui8toi16", n)
				c08slice(&a, 3, unsafe.Pointer(&b[0]), no)
				c08abi(c08_Ui8toi16b, &a, "Ui8toi16b", n)
				c08slice(&a, 3, unsafe.Pointer(&f[0]), no)
				c08abi(c08_Ui8tof32, &a, "Ui8tof32", n)
				c08slice(&a, 0, unsafe.Pointer(&in[0]), ni)
				c08slice(&a, 3, unsafe.Pointer(&f[0]), no)
				c08abi(c08_I8tof32, &a, "I8tof32", n)
				c08slice(&a, 0, unsafe.Pointer(&in[0]), ni)
				c08slice(&a, 3, unsafe.Pointer(&c[0]), no/2)
				c08abi(c08_Ui8toc64, &a, "Ui8toc64", n)
				c08slice(&a, 0, unsafe.Pointer(&in[0]), ni)
				c08slice(&a, 3, unsafe.Pointer(&fs[0]), no/2)
				c08abi(c08_I16bleToF32, &a, "I16bleToF32", n)
				c08slice(&a, 0, unsafe.Pointer(&in[0]), ni)
				c08slice(&a, 3, unsafe.Pointer(&d[0]), no/2)
				c08abi(c08_I16bleToF64, &a, "I16bleToF64", n)
			}
		}
	})
}

func H_C08_floats() {
	vSetFlags(nd.P(0))
	al := nd.P(1)
	scale := nd.F32("scale")
	c08lens(func(n, ni, no int) {
		in := nd.F32s("in", ni, (al*4+4*n)%32)
		nd.Freeze()
		o16 := nd.I16s("o16", no, al)
		F32toi16(in, o16, scale)
		b := nd.Bytes("b", 2*no+n%2, al)
		F32toi16ble(in, b, scale)
		I16ToBLE(o16, b)
		F32Tof32ble(in, b)
		f := nd.F32s("f", no, al*2)
		VScaleF32(in, f, scale)
		VAddF32(in, f)
		// comparisons of symbolic values fork paths, which the bounds do not
		// depend on: run the extrema on a few sizes only
		if n < 4 || n == 33 {
			VMaxF32(in)
			VMinF32(in)
		}
		if !nd.Symbolic() && ni > 0 && no > 0 {
			var a [16]uint64
			set := func(o unsafe.Pointer, n int) {
				c08slice(&a, 0, unsafe.Pointer(&in[0]), ni)
				c08slice(&a, 3, o, n)
				a[6] = 0
			}
			set(unsafe.Pointer(&o16[0]), no)
			c08abi(c08_F32toi16, &a, "F32toi16", n)
			set(unsafe.Pointer(&b[0]), 2*no)
			c08abi(c08_F32toi16ble, &a, "F32toi16ble", n)
			set(unsafe.Pointer(&f[0]), no)
			c08abi(c08_VScaleF32, &a, "VScaleF32", n)
			set(nil, 0)
			c08abi(c08_VMaxF32, &a, "VMaxF32", n)
			set(nil, 0)
			c08abi(c08_VMinF32, &a, "VMinF32", n)
		}
	})
}

func H_C08_complex() {
	vSetFlags(nd.P(0))
	al := nd.P(1)
	scale := nd.F32("scale")
	c08lens(func(n, ni, no int) {
		in := nd.C64s("in", ni, al/8*8)
		mul := nd.F32s("mul", (ni*7+no)%(n+3), 0)
		cm := nd.C64s("cm", (ni+no*3)%(n+3), 0)
		nd.Freeze()
		out := nd.C64s("out", no, 0)
		VMulC64xF32(in, out, mul)
		VMulC64(in, out, cm)
		VAddC64(in, out)
		VScaleC64(in, out, scale)
		f := nd.F32s("f", no, al)
		VAbsC64(in, f)
		b := nd.I8s("b", 2*no+n%2, al)
		C64toi8(in, b)
	})
}
