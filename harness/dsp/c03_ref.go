package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable Go versions, used on processors without an assembly kernel.
func init() {
	pI16bleToF32 = i16bleToF32
	pI16bleToF64 = i16bleToF64
	jobs := func(t int) [][]int { return [][]int{{-1, 0, 0, vTier(t, 40, 140), 7}, {-1, 1 * 4, 255, 258, 7}} }
	nd.Reg("C03", "i16bletof32-portable", H_C03_i16bletof32, jobs)
	nd.Reg("C03", "i16bletof64-portable", H_C03_i16bletof64, jobs)
}
