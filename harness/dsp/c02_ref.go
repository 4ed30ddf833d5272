package dsp

import nd "github.com/samuel/go-dsp/verifnd"

// The portable Go versions, used on processors without an assembly kernel.
func init() {
	pUi8tof32 = ui8tof32
	pI8tof32 = i8tof32
	pUi8toc64 = ui8toc64
	jobs := func(t int) [][]int { return [][]int{{-1, 0, 0, vTier(t, 40, 140), 7}, {-1, 1 * 4, 255, 258, 7}} }
	nd.Reg("C02", "ui8tof32-portable", H_C02_ui8tof32, jobs)
	nd.Reg("C02", "i8tof32-portable", H_C02_i8tof32, jobs)
	nd.Reg("C02", "ui8toc64-portable", H_C02_ui8toc64, jobs)
}
