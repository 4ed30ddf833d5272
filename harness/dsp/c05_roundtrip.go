package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	small := func(t int) [][]int {
		return vJobs(0, 2, 1, vTier(t, 40, 120), 121, vTier(t, 3, 5))
	}
	nd.Reg("C05", "i16toble", H_C05_i16toble, small)
	nd.Reg("C05", "f32tof32ble", H_C05_f32tof32ble, small)
	nd.Reg("C05", "c64toi8", H_C05_c64toi8, small)
	nd.Reg("C05", "i16roundtrip", H_C05_i16roundtrip, func(t int) [][]int {
		return vJobs(vNumFlags, 2, 2, vTier(t, 70, 200), 201, 1)
	})
}

func H_C05_i16toble() {
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			ni, no := vShape(n, k)
			in := nd.I16s("in", ni, 0)
			nd.Freeze()
			out := nd.Bytes("out", 2*no+(n+k)%2, al)
			old := append([]byte(nil), out...)
			I16ToBLE(in, out)
			for i := range out {
				if i < 2*n {
					nd.EqI(int64(out[i]), int64(byte(uint16(in[i/2])>>uint(8*(i%2)))), "I16ToBLE byte", n*1000+i)
				} else {
					nd.EqI(int64(out[i]), int64(old[i]), "I16ToBLE beyond the end", n*1000+i)
				}
			}
		}
	}
}

func H_C05_f32tof32ble() {
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			ni, no := vShape(n, k)
			in := nd.F32s("in", ni, 0)
			nd.Freeze()
			out := nd.Bytes("out", 4*no+(n+k)%4, al)
			old := append([]byte(nil), out...)
			F32Tof32ble(in, out)
			for i := range out {
				if i < 4*n {
					nd.EqI(int64(out[i]), int64(byte(math.Float32bits(in[i/4])>>uint(8*(i%4)))), "F32Tof32ble byte", n*1000+i)
				} else {
					nd.EqI(int64(out[i]), int64(old[i]), "F32Tof32ble beyond the end", n*1000+i)
				}
			}
		}
	}
}

// Every complex sample with integer parts in [-128,127] comes back.
func H_C05_c64toi8() {
	lo, hi, sh := nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			ni, no := vShape(n, k)
			src := nd.I8s("src", 2*ni, 0)
			in := make([]complex64, ni)
			for i := range in {
				in[i] = complex(float32(src[2*i]), float32(src[2*i+1]))
			}
			out := nd.I8s("out", 2*no+(n+k)%2, n%16)
			old := append([]int8(nil), out...)
			C64toi8(in, out)
			for i := range out {
				if i < 2*n {
					nd.EqI(int64(out[i]), int64(src[i]), "C64toi8", n*1000+i)
				} else {
					nd.EqI(int64(out[i]), int64(old[i]), "C64toi8 beyond the end", n*1000+i)
				}
			}
			back := make([]complex64, n)
			I8toc64(out, back)
			for i := range back {
				nd.EqC64(back[i], in[i], "C64toi8 then I8toc64", n*1000+i)
			}
		}
	}
}

// 16-bit samples through bytes, floats and back.
func H_C05_i16roundtrip() {
	vSetFlags(nd.P(0))
	al, lo, hi := nd.P(1), nd.P(2), nd.P(3)
	for n := lo; n <= hi; n++ {
		in := nd.I16s("in", n, 0)
		b := nd.Bytes("b", 2*n, al)
		I16ToBLE(in, b)
		f := nd.F32s("f", n, al*2)
		I16bleToF32(b, f, 1)
		b2 := nd.Bytes("b2", 2*n, al+1)
		F32toi16ble(f, b2, 1)
		d := nd.I16s("d", n, al)
		F32toi16(f, d, 1)
		for i := range in {
			nd.EqI(int64(int16(uint16(b[2*i])|uint16(b[2*i+1])<<8)), int64(in[i]), "I16ToBLE value", n*1000+i)
			nd.EqI(int64(int16(uint16(b2[2*i])|uint16(b2[2*i+1])<<8)), int64(in[i]), "round trip through F32toi16ble", n*1000+i)
			nd.EqI(int64(d[i]), int64(in[i]), "round trip through F32toi16", n*1000+i)
		}
	}
}
