package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable Go versions, used on processors without an assembly kernel.
func init() {
	pVMaxF32 = vMaxF32
	pVMinF32 = vMinF32
	jobs := func(t int) [][]int { return [][]int{{-1, 0, 0, vTier(t, 70, 140), vTier(t, 11, 3)}} }
	nd.Reg("C07", "vmaxf32-portable", H_C07_vmaxf32, jobs)
	nd.Reg("C07", "vminf32-portable", H_C07_vminf32, jobs)
}
