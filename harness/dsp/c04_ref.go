package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable Go versions, used on processors without an assembly kernel.
func init() {
	pF32toi16 = f32toi16
	pF32toi16ble = f32toi16ble
	jobs := func(t int) [][]int { return [][]int{{-1, 0, 0, vTier(t, 5, 20), 7}, {-1, 2, 33, 34, 3}} }
	nd.Reg("C04", "f32toi16-portable", H_C04_f32toi16, jobs)
	nd.Reg("C04", "f32toi16ble-portable", H_C04_f32toi16ble, jobs)
}
