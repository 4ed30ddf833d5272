package dsp

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	pDownCGo, pDownRGo = lowPassDownsampleComplexFilter, lowPassDownsampleRationalFilter
	nd.Reg("C13", "complex-portable", H_C13_complexGo, func(t int) [][]int { return [][]int{{12, 5, 3}, {9, 4, 1}, {10, 6, 2}, {40, 33, 16}} })
	nd.Reg("C13", "rational-portable", H_C13_rationalGo, func(t int) [][]int {
		return [][]int{{12, 5, 3, 2}, {9, 4, 1, 1}, {10, 6, 5, 2}, {48, 33, 16, 7}, {40, 15, 48000, 44100}}
	})
}

var pDownCGo func(f *LowPassDownsampleComplexFilter, s []complex64) []complex64
var pDownRGo func(f *LowPassDownsampleRationalFilter, s []float32) []float32

func H_C13_complexGo()  { pDownC = pDownCGo; H_C13_complex() }
func H_C13_rationalGo() { pDownR = pDownRGo; H_C13_rational() }
