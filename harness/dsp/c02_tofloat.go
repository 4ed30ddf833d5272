package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable versions, set by c02_ref.go.
var pUi8tof32, pI8tof32, pUi8toc64 = Ui8tof32, I8tof32, Ui8toc64

func init() {
	jobs := func(t int) [][]int {
		return vJobs(vNumFlags, 4, 4, vTier(t, 84, 260), vTier(t, 85, 66), vTier(t, 3, 5))
	}
	nd.Reg("C02", "ui8tof32", H_C02_ui8tof32, jobs)
	nd.Reg("C02", "i8tof32", H_C02_i8tof32, jobs)
	nd.Reg("C02", "ui8toc64", H_C02_ui8toc64, jobs)
	nd.Reg("C02", "i8toc64", H_C02_i8toc64, func(t int) [][]int {
		return vJobs(0, 1, 4, vTier(t, 40, 100), 101, vTier(t, 3, 5))
	})
}

func H_C02_ui8tof32() {
	vSetFlags(nd.P(0))
	f := Ui8tof32
	if nd.P(0) < 0 {
		f = pUi8tof32
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			in := nd.Bytes("in", ni, (al*3+n)%16)
			nd.Freeze()
			out := nd.F32s("out", no, al)
			old := append([]float32(nil), out...)
			f(in, out)
			for i := range out {
				if i < n {
					nd.Eq32(out[i], float32(int8(in[i]-128)), "Ui8tof32 sample", n*1000+i)
				} else {
					nd.Eq32(out[i], old[i], "Ui8tof32 beyond the end", n*1000+i)
				}
			}
		}
	}
}

func H_C02_i8tof32() {
	vSetFlags(nd.P(0))
	f := I8tof32
	if nd.P(0) < 0 {
		f = pI8tof32
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			in := nd.Bytes("in", ni, (al*3+n)%16)
			nd.Freeze()
			out := nd.F32s("out", no, al)
			old := append([]float32(nil), out...)
			f(in, out)
			for i := range out {
				if i < n {
					nd.Eq32(out[i], float32(int8(in[i])), "I8tof32 sample", n*1000+i)
				} else {
					nd.Eq32(out[i], old[i], "I8tof32 beyond the end", n*1000+i)
				}
			}
		}
	}
}

// The length parameter counts complex samples; inputs get an extra odd byte.
func H_C02_ui8toc64() {
	vSetFlags(nd.P(0))
	f := Ui8toc64
	if nd.P(0) < 0 {
		f = pUi8toc64
	}
	al, lo, hi, sh := nd.P(1), nd.P(2), nd.P(3), nd.P(4)
	for n := lo / 2; n <= hi/2; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			for odd := 0; odd < 2; odd++ {
				in := nd.Bytes("in", 2*ni+odd, (al*3+n)%16)
				nd.Freeze()
				out := nd.C64s("out", no, al)
				old := append([]complex64(nil), out...)
				f(in, out)
				for i := range out {
					if i < n {
						nd.Eq32(real(out[i]), float32(int8(in[2*i]-128)), "Ui8toc64 I", n*1000+i)
						nd.Eq32(imag(out[i]), float32(int8(in[2*i+1]-128)), "Ui8toc64 Q", n*1000+i)
					} else {
						nd.EqC64(out[i], old[i], "Ui8toc64 beyond the end", n*1000+i)
					}
				}
			}
		}
	}
}

func H_C02_i8toc64() {
	lo, hi, sh := nd.P(2), nd.P(3), nd.P(4)
	for n := lo; n <= hi; n++ {
		for k := 0; k < sh; k++ {
			if vSkip(n, k, sh) {
				continue
			}
			ni, no := vShape(n, k)
			for odd := 0; odd < 2; odd++ {
				in := nd.I8s("in", 2*ni+odd, n%16)
				nd.Freeze()
				out := nd.C64s("out", no, 0)
				old := append([]complex64(nil), out...)
				I8toc64(in, out)
				for i := range out {
					if i < n {
						nd.Eq32(real(out[i]), float32(in[2*i]), "I8toc64 I", n*1000+i)
						nd.Eq32(imag(out[i]), float32(in[2*i+1]), "I8toc64 Q", n*1000+i)
					} else {
						nd.EqC64(out[i], old[i], "I8toc64 beyond the end", n*1000+i)
					}
				}
			}
		}
	}
}
