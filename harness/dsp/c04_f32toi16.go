package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable versions, set by c04_ref.go.
var pF32toi16, pF32toi16ble = F32toi16, F32toi16ble

func init() {
	jobs := func(t int) [][]int {
		return vJobs(0, 4, 2, vTier(t, 100, 300), vTier(t, 101, 50), vTier(t, 3, 5))
	}
	nd.Reg("C04", "f32toi16", H_C04_f32toi16, jobs)
	nd.Reg("C04", "f32toi16ble", H_C04_f32toi16ble, jobs)
	nd.Reg("C04", "position", H_C04_position, func(t int) [][]int {
		return [][]int{{0}, {1}, {2}, {3}}
	})
}

// c04check: truncation toward zero, clipped; NaN has no required value.
func c04check(got int16, v, scale float32, msg string, i int) {
	p := v * scale
	want := nd.IteI(p >= 32767, 32767, nd.IteI(p <= -32768, -32768, int64(int16(int32(p)))))
	nd.EqI(nd.IteI(p == p, int64(got), 0), nd.IteI(p == p, want, 0), msg, i)
}

func H_C04_f32toi16() {
	vSetFlags(nd.P(0))
	f := F32toi16
	if nd.P(0) < 0 {
		f = pF32toi16
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	scale := nd.F32("scale")
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			in := nd.F32s("in", ni, (n*4)%16)
			nd.Freeze()
			out := nd.I16s("out", no, al)
			old := append([]int16(nil), out...)
			f(in, out, scale)
			for i := range out {
				if i < n {
					c04check(out[i], in[i], scale, "F32toi16 sample", n*1000+i)
				} else {
					nd.EqI(int64(out[i]), int64(old[i]), "F32toi16 beyond the end", n*1000+i)
				}
			}
		}
	}
}

func H_C04_f32toi16ble() {
	vSetFlags(nd.P(0))
	f := F32toi16ble
	if nd.P(0) < 0 {
		f = pF32toi16ble
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	scale := nd.F32("scale")
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			in := nd.F32s("in", ni, (n*4)%16)
			nd.Freeze()
			odd := (n + k) % 2
			out := nd.Bytes("out", 2*no+odd, al/2+n)
			old := append([]byte(nil), out...)
			f(in, out, scale)
			for i := range out {
				if i >= 2*n {
					nd.EqI(int64(out[i]), int64(old[i]), "F32toi16ble beyond the end", n*1000+i)
				} else if i%2 == 0 {
					c04check(int16(uint16(out[i])|uint16(out[i+1])<<8), in[i/2], scale, "F32toi16ble sample", n*1000+i/2)
				}
			}
		}
	}
}

// H_C04_position: the same sample, NaN included, gives the same integer
// whatever its position, the buffer length and the offsets of the slices.
func H_C04_position() {
	scale := nd.F32("scale")
	v := nd.F32("v")
	off := nd.P(0)
	var one [1]int16
	F32toi16([]float32{v}, one[:], scale)
	for n := 1; n <= 70; n++ {
		buf := make([]float32, n+off)
		for i := range buf {
			buf[i] = v
		}
		out := make([]int16, n+off)
		F32toi16(buf[off:], out[off:], scale)
		bout := make([]byte, 2*n+off)
		F32toi16ble(buf[off:], bout[off:], scale)
		for i := 0; i < n; i++ {
			nd.EqI(int64(out[off+i]), int64(one[0]), "F32toi16 position", n*1000+i)
			nd.EqI(int64(int16(uint16(bout[off+2*i])|uint16(bout[off+2*i+1])<<8)), int64(one[0]), "F32toi16ble position", n*1000+i)
		}
	}
}
