package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// vShared is what the goroutines of a C33 job share: inputs that every
// operation only reads.
type vShared struct {
	u8   []byte
	i8   []int8
	i16  []int16
	f32  []float32
	f64  []float64
	c64  []complex64
	c128 []complex128
	f, g float64
	i, j int
}

// vOps lists the operations: op(s) builds what one goroutine owns and returns
// what the goroutine does.
var vOps = []func(s *vShared) func(){
	func(s *vShared) func() { o := make([]int16, len(s.u8)); return func() { Ui8toi16(s.u8, o) } },
	func(s *vShared) func() { o := make([]byte, 2*len(s.u8)); return func() { Ui8toi16b(s.u8, o) } },
	func(s *vShared) func() {
		o, p := make([]float32, len(s.u8)), make([]float32, len(s.u8))
		return func() { Ui8tof32(s.u8, o); I8tof32(s.u8, p) }
	},
	func(s *vShared) func() {
		o, p := make([]complex64, len(s.u8)/2), make([]complex64, len(s.u8)/2)
		return func() { Ui8toc64(s.u8, o); I8toc64(s.i8, p) }
	},
	func(s *vShared) func() {
		o := make([]int8, 2*len(s.c64))
		return func() { C64toi8(s.c64, o) }
	},
	func(s *vShared) func() {
		o, p := make([]int16, len(s.f32)), make([]byte, 2*len(s.f32))
		return func() { F32toi16(s.f32, o, 100); F32toi16ble(s.f32, p, 100) }
	},
	func(s *vShared) func() {
		o, p := make([]byte, 2*len(s.i16)), make([]byte, 4*len(s.f32))
		return func() { I16ToBLE(s.i16, o); F32Tof32ble(s.f32, p) }
	},
	func(s *vShared) func() {
		o, p, q := make([]float64, len(s.u8)/2), make([]float32, len(s.u8)/2), make([]float32, len(s.u8)/4)
		return func() { I16bleToF64(s.u8, o, s.f); I16bleToF32(s.u8, p, 3); I32bleToF32(s.u8, q, 5) }
	},
	func(s *vShared) func() {
		o, p := make([]complex64, len(s.c64)), make([]complex64, len(s.c64))
		return func() {
			VMulC64xF32(s.c64, o, s.f32)
			VMulC64(s.c64, p, s.c64)
			VAddC64(s.c64, o)
			VScaleC64(s.c64, p, 2)
		}
	},
	func(s *vShared) func() {
		o, p := make([]float32, len(s.f32)), make([]float32, len(s.c64))
		return func() {
			VAddF32(s.f32, o)
			VScaleF32(s.f32, o, 2)
			VAbsC64(s.c64, p)
			VMaxF32(s.f32)
			VMinF32(s.f32)
		}
	},
	func(s *vShared) func() {
		return func() {
			FastAtan2(s.f32[0], s.f32[1])
			FastAtan2_2(s.f32[0], s.f32[1])
			FastAtan2Fixed(s.i, s.j)
			Atan2LUT(s.i, s.j)
			PolarDiscriminator(s.c128[0], s.c128[1])
			PolarDiscriminator32(s.c64[0], s.c64[1])
			Conj32(s.c64[0])
			FastPhase32(s.c64[0])
			Phase32(s.c64[0])
		}
	},
	func(s *vShared) func() {
		f, o := &FMDemodFilter{}, make([]float32, len(s.c64))
		return func() { f.Demodulate(s.c64, o) }
	},
	func(s *vShared) func() {
		f, x := &LowPassDownsampleComplexFilter{Downsample: 3}, append([]complex64(nil), s.c64...)
		return func() { f.Filter(x); f.Filter(x[:1]) }
	},
	func(s *vShared) func() {
		f, x := &LowPassDownsampleRationalFilter{Fast: 5, Slow: 2}, append([]float32(nil), s.f32...)
		return func() { f.Filter(x); f.Filter(x[:1]) }
	},
	func(s *vShared) func() {
		f, x := &Rotate90Filter{}, append([]complex64(nil), s.c64[:4]...)
		g, y := &I32Rotate90Filter{}, make([]int32, 8)
		return func() { f.Filter(x); g.Filter(y) }
	},
	func(s *vShared) func() {
		f, o := NewIIRFilter(s.f64[:2], s.f64[2:4]), make([]float64, len(s.f64))
		return func() { f.Filter(s.f64, o) }
	},
	func(s *vShared) func() {
		f, o := NewComplexIIRFilter(s.f64[:2], s.f64[2:4]), make([]complex128, len(s.c128))
		return func() { f.Filter(s.c128, o) }
	},
	func(s *vShared) func() {
		f, o := NewComplexIIRFilter32(s.f32[:2], s.f32[2:4]), make([]complex64, len(s.c64))
		return func() { f.Filter(s.c64, o) }
	},
	func(s *vShared) func() {
		f, o, p := &BiQuadFilter{B0: s.f, B1: 1, B2: s.g, A0: 1, A1: s.g, A2: s.f}, make([]float64, len(s.f64)), make([]float32, len(s.f32))
		return func() { f.Filter(s.f64, o); f.FilterF32(s.f32, p) }
	},
	func(s *vShared) func() {
		return func() {
			NewLowPassBiQuadFilter(8000, s.f, 1)
			NewHighPassBiQuadFilter(8000, s.f, 1)
			NewBandPassConstantSkirtGainBiQuadFilter(8000, s.f, 1)
			NewBandPassConstantPeakGainBiQuadFilter(8000, s.f, 1)
			NotchBiQuadFilter(8000, s.f, 1)
			AllPassBiQuadFilter(8000, s.f, 1)
			PeakingEQBiQuadFilter(8000, s.f, 1, s.g)
			LowShelfBiQuadFilter(8000, s.f, 1, s.g)
			HighShelfBiQuadFilter(8000, s.f, 1, s.g)
		}
	},
	func(s *vShared) func() {
		f, o := NewDCFilter(s.f), make([]float64, len(s.f64))
		g, p := NewDCFilter32(0.5), make([]float32, len(s.f32))
		return func() { f.Filter(s.f64, o); f.FilterOne(s.g); g.Filter(s.f32, p); g.FilterOne(1) }
	},
	func(s *vShared) func() {
		f := NewGoertzel32([]uint64{697, 770}, 8000, 4)
		return func() { f.Feed(s.f32); f.Magnitude(); f.Complex(); f.Reset() }
	},
	func(s *vShared) func() {
		f := NewGoertzel([]uint64{697, 770}, 8000, 4)
		return func() { f.Feed(s.f64); f.Magnitude(); f.Complex(); f.Reset() }
	},
	func(s *vShared) func() {
		f := NewComplexGoertzel([]uint64{697, 770}, 8000, 4)
		return func() { f.Feed(s.c128); f.Magnitude(); f.Complex(); f.Reset() }
	},
	func(s *vShared) func() {
		f := NewSDFT(1, 3, s.f64[:3])
		return func() { f.Filter(s.c128[0]); f.Filter(s.c128[1]) }
	},
	func(s *vShared) func() {
		f := NewSDFT(2, 4, HanningFreqCoeff)
		g := NewSDFT32(2, 4, HanningFreqCoeff32)
		return func() { f.Filter(s.c128[0]); g.Filter(s.c64[1]) }
	},
	func(s *vShared) func() {
		f := NewSDFT32(1, 3, nil)
		return func() { f.Filter(s.c64[0]); f.Filter(s.c64[1]) }
	},
	func(s *vShared) func() {
		o, p := make([]float64, 3), make([]float32, 3)
		return func() {
			TriangleWindow(o)
			HammingWindow(o)
			HanningWindow(o)
			BlackmanWindow(o)
			NuttallWindow(o)
			TriangleWindowF32(p)
			HammingWindowF32(p)
			HanningWindowF32(p)
			BlackmanWindowF32(p)
			NuttallWindowF32(p)
		}
	},
	func(s *vShared) func() {
		return func() {
			Linear(s.f64, 1.25)
			Hermite4p3o(s.f64, 1.25)
			Optimal2x4p4o(s.f64, 1.25)
			Optimal2x6p5o(s.f64, 1.25)
			LinearF32(s.f32, 1.25)
			Hermite4p3oF32(s.f32, 1.25)
			Optimal2x4p4oF32(s.f32, 1.25)
			Optimal2x6p5oF32(s.f32, 1.25)
		}
	},
}

func init() {
	nd.Reg("C33", "dsp", H_C33_dsp, func(t int) [][]int {
		var r [][]int
		for k := range vOps {
			for mode := 0; mode < 2; mode++ {
				r = append(r, []int{k, mode, vTier(t, 5, 9)})
			}
		}
		return r
	})
}

// H_C33_dsp: two goroutines do the same operation on what each owns, built
// before (mode 0) or by the goroutine itself (mode 1).
func H_C33_dsp() {
	vPar(vOps[nd.P(0)], nd.P(1), nd.P(2))
}

func vPar(op func(s *vShared) func(), mode, n int) {
	// with room behind, which belongs to somebody else
	s := &vShared{
		u8:   append(make([]byte, 0, 2*n+8), nd.Bytes("u8", 2*n, 0)...),
		i8:   append(make([]int8, 0, 2*n+8), nd.I8s("i8", 2*n, 0)...),
		i16:  append(make([]int16, 0, 2*n+8), nd.I16s("i16", n, 0)...),
		f32:  append(make([]float32, 0, 2*n+8), nd.F32s("f32", n, 0)...),
		f64:  append(make([]float64, 0, 2*n+8), nd.F64s("f64", n, 0)...),
		c64:  append(make([]complex64, 0, 2*n+8), nd.C64s("c64", n, 0)...),
		c128: append(make([]complex128, 0, 2*n+8), nd.C128s("c128", n, 0)...),
		f:    nd.F64("f"), g: nd.F64("g"), i: int(nd.I32("i")), j: int(nd.I32("j")),
	}
	if mode == 0 {
		a, b := op(s), op(s)
		nd.Par(a, b)
		return
	}
	nd.Par(func() { op(s)() }, func() { op(s)() })
}
