package dsp

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	jobs := func(t int) [][]int { return [][]int{{vTier(t, 36, 132), 0}} }
	nd.Reg("C14", "complex-portable", H_C14_complexGo, jobs)
	nd.Reg("C14", "int32-portable", H_C14_int32Go, jobs)
}

func H_C14_complexGo() {
	pRot = func(s []complex64) []complex64 { return rotate90Filter(new(Rotate90Filter), s) }
	H_C14_complex()
}

func H_C14_int32Go() {
	pIRot = func(s []int32) []int32 { return i32Rotate90Filter(new(I32Rotate90Filter), s) }
	H_C14_int32()
}
