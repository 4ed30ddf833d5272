package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable Go versions, used on processors without an assembly kernel.
func init() {
	pUi8toi16 = ui8toi16
	pUi8toi16b = ui8toi16b
	jobs := func(t int) [][]int { return [][]int{{-1, 0, 0, vTier(t, 40, 140), 7}, {-1, 1 * 2, 255, 258, 7}} }
	nd.Reg("C01", "ui8toi16-portable", H_C01_ui8toi16, jobs)
	nd.Reg("C01", "ui8toi16b-portable", H_C01_ui8toi16b, jobs)
}
