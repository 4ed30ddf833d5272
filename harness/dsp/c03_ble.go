package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable versions, set by c03_ref.go.
var pI16bleToF32, pI16bleToF64 = I16bleToF32, I16bleToF64

func init() {
	nd.Reg("C03", "i16bletof32", H_C03_i16bletof32, func(t int) [][]int {
		return vJobs(vNumFlags, 4, 4, vTier(t, 68, 200), vTier(t, 69, 51), vTier(t, 3, 5))
	})
	nd.Reg("C03", "i16bletof64", H_C03_i16bletof64, func(t int) [][]int {
		return vJobs(vNumFlags, 4, 4, vTier(t, 68, 200), vTier(t, 69, 51), vTier(t, 3, 5))
	})
	nd.Reg("C03", "i32bletof32", H_C03_i32bletof32, func(t int) [][]int {
		return vJobs(0, 1, 4, vTier(t, 24, 80), 81, vTier(t, 3, 5))
	})
}

func H_C03_i16bletof32() {
	vSetFlags(nd.P(0))
	f := I16bleToF32
	if nd.P(0) < 0 {
		f = pI16bleToF32
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	scale := nd.F32("scale")
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			in := nd.Bytes("in", 2*ni+(n+k)%2, (al*3+n)%16)
			nd.Freeze()
			out := nd.F32s("out", no, al)
			old := append([]float32(nil), out...)
			f(in, out, scale)
			for i := range out {
				if i < n {
					v := int16(uint16(in[2*i]) | uint16(in[2*i+1])<<8)
					nd.Eq32(out[i], float32(v)*scale, "I16bleToF32 sample", n*1000+i)
				} else {
					nd.Eq32(out[i], old[i], "I16bleToF32 beyond the end", n*1000+i)
				}
			}
		}
	}
}

func H_C03_i16bletof64() {
	vSetFlags(nd.P(0))
	f := I16bleToF64
	if nd.P(0) < 0 {
		f = pI16bleToF64
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	scale := nd.F64("scale")
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			in := nd.Bytes("in", 2*ni+(n+k)%2, (al*3+n)%16)
			nd.Freeze()
			out := nd.F64s("out", no, al/8*8)
			old := append([]float64(nil), out...)
			f(in, out, scale)
			for i := range out {
				if i < n {
					v := int16(uint16(in[2*i]) | uint16(in[2*i+1])<<8)
					nd.Eq64(out[i], float64(v)*scale, "I16bleToF64 sample", n*1000+i)
				} else {
					nd.Eq64(out[i], old[i], "I16bleToF64 beyond the end", n*1000+i)
				}
			}
		}
	}
}

func H_C03_i32bletof32() {
	lo, hi, sh := nd.P(2), nd.P(3), nd.P(4)
	scale := nd.F32("scale")
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			in := nd.Bytes("in", 4*ni+(n+k)%4, n%16)
			nd.Freeze()
			out := nd.F32s("out", no, 0)
			old := append([]float32(nil), out...)
			I32bleToF32(in, out, scale)
			for i := range out {
				if i < n {
					v := int32(uint32(in[4*i]) | uint32(in[4*i+1])<<8 | uint32(in[4*i+2])<<16 | uint32(in[4*i+3])<<24)
					nd.Eq32(out[i], float32(v)*scale, "I32bleToF32 sample", n*1000+i)
				} else {
					nd.Eq32(out[i], old[i], "I32bleToF32 beyond the end", n*1000+i)
				}
			}
		}
	}
}
