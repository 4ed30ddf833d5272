package dsp

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C12", "demod-portable", H_C12_demodGo, func(t int) [][]int {
		return [][]int{{5, 2, 3}, {5, 0, 5}, {5, 5, 5}, {vTier(t, 12, 24), 5, 9}}
	})
}

func H_C12_demodGo() {
	pDemod = fmDemodulate
	H_C12_demod()
}
