package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// vPortable are the portable versions of what assembly does here.
var vPortable = []func(s *vShared) func(){
	func(s *vShared) func() {
		o, p, q, r := make([]int16, len(s.u8)), make([]byte, 2*len(s.u8)), make([]float32, len(s.u8)), make([]complex64, len(s.u8)/2)
		return func() { ui8toi16(s.u8, o); ui8toi16b(s.u8, p); ui8tof32(s.u8, q); i8tof32(s.u8, q); ui8toc64(s.u8, r) }
	},
	func(s *vShared) func() {
		o, p, q := make([]int16, len(s.f32)), make([]byte, 2*len(s.f32)), make([]byte, 2*len(s.i16))
		r, t := make([]float64, len(s.u8)/2), make([]float32, len(s.u8)/2)
		return func() {
			f32toi16(s.f32, o, 100)
			f32toi16ble(s.f32, p, 100)
			i16ToBLE(s.i16, q)
			i16bleToF64(s.u8, r, s.f)
			i16bleToF32(s.u8, t, 3)
		}
	},
	func(s *vShared) func() {
		o, p, q := make([]complex64, len(s.c64)), make([]float32, len(s.f32)), make([]float32, len(s.c64))
		return func() {
			vMulC64xF32(s.c64, o, s.f32)
			vscaleF32(s.f32, p, 2)
			vAbsC64(s.c64, q)
			vMaxF32(s.f32)
			vMinF32(s.f32)
			fastAtan2(s.f32[0], s.f32[1])
			fastAtan2_2(s.f32[0], s.f32[1])
		}
	},
	func(s *vShared) func() {
		f, o := &FMDemodFilter{}, make([]float32, len(s.c64))
		g, x := &LowPassDownsampleComplexFilter{Downsample: 3}, append([]complex64(nil), s.c64...)
		h, y := &LowPassDownsampleRationalFilter{Fast: 5, Slow: 2}, append([]float32(nil), s.f32...)
		i, z := &Rotate90Filter{}, append([]complex64(nil), s.c64[:4]...)
		j, w := &I32Rotate90Filter{}, make([]int32, 8)
		return func() {
			fmDemodulate(f, s.c64, o)
			lowPassDownsampleComplexFilter(g, x)
			lowPassDownsampleRationalFilter(h, y)
			rotate90Filter(i, z)
			i32Rotate90Filter(j, w)
		}
	},
}

func init() {
	nd.Reg("C33", "portable", H_C33_portable, func(t int) [][]int {
		var r [][]int
		for k := range vPortable {
			r = append(r, []int{k, 0, vTier(t, 5, 9)})
		}
		return r
	})
}

func H_C33_portable() { vPar(vPortable[nd.P(0)], nd.P(1), nd.P(2)) }
