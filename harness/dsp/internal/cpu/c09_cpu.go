package cpu

// Answers of the CPUID leaves 0, 1, 7 and 0x80000000 and of XGETBV.
var vTab [4][4]uint32
var vXcr [2]uint32

// VSet sets register r (0 eax, 1 ebx, 2 ecx, 3 edx) of CPUID leaf number i.
func VSet(i, r int, v uint32) { vTab[i][r] = v }

func VXcr(eax, edx uint32) { vXcr[0], vXcr[1] = eax, edx }

func VReset() {
	options = nil
	for i := range vTab {
		vTab[i] = [4]uint32{}
	}
}

func vCPUIDHook()
func vXGETBVHook()

var vHooks = [...]func(){vCPUIDHook, vXGETBVHook}
