package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable versions, set by c01_ref.go.
var pUi8toi16, pUi8toi16b = Ui8toi16, Ui8toi16b

func init() {
	nd.Reg("C01", "ui8toi16", H_C01_ui8toi16, func(t int) [][]int {
		return vJobs(0, 8, 2, vTier(t, 120, 330), vTier(t, 61, 40), vTier(t, 3, 5))
	})
	nd.Reg("C01", "ui8toi16b", H_C01_ui8toi16b, func(t int) [][]int {
		return vJobs(0, 16, 1, vTier(t, 120, 330), vTier(t, 121, 40), vTier(t, 3, 5))
	})
}

func c01want(b byte) int16 {
	v := b - 128
	return int16(uint16(v)<<8 | uint16(v))
}

func H_C01_ui8toi16() {
	f := Ui8toi16
	if nd.P(0) < 0 {
		f = pUi8toi16
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			in := nd.Bytes("in", ni, (al*3+n)%16)
			nd.Freeze()
			out := nd.I16s("out", no, al)
			old := append([]int16(nil), out...)
			f(in, out)
			for i := range out {
				if i < n {
					nd.EqI(int64(out[i]), int64(c01want(in[i])), "Ui8toi16 sample", n*1000+i)
				} else {
					nd.EqI(int64(out[i]), int64(old[i]), "Ui8toi16 beyond the end", n*1000+i)
				}
			}
		}
	}
}

func H_C01_ui8toi16b() {
	f := Ui8toi16b
	if nd.P(0) < 0 {
		f = pUi8toi16b
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			odd := n & 1
			if ni < no {
				odd = 0
			}
			in := nd.Bytes("in", ni, (al*3+n)%16)
			nd.Freeze()
			out := nd.Bytes("out", 2*no+odd, al)
			old := append([]byte(nil), out...)
			f(in, out)
			for i := range out {
				if i < 2*n {
					nd.EqI(int64(out[i]), int64(in[i/2]-128), "Ui8toi16b byte", n*1000+i)
				} else {
					nd.EqI(int64(out[i]), int64(old[i]), "Ui8toi16b beyond the end", n*1000+i)
				}
			}
		}
	}
}
