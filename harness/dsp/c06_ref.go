package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable Go versions, used on processors without an assembly kernel.
func init() {
	pVScaleF32 = vscaleF32
	jobs := func(t int) [][]int { return [][]int{{-1, 0, 0, vTier(t, 40, 140), 7}, {-1, 1 * 4, 255, 258, 7}} }
	nd.Reg("C06", "vscalef32-portable", H_C06_vscalef32, jobs)
}
