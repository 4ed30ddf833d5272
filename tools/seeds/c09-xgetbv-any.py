id="c09-xgetbv-any"; prop="C09"; pkg="dsp/internal/cpu"
edits=[("dsp/internal/cpu/cpu_x86.go", "		osSupportsAVX = isSet(eax, 1<<1) && isSet(eax, 1<<2)\n", "		osSupportsAVX = isSet(eax, 1<<1|1<<2)\n")]
needs="a CPU with AVX under an operating system that saves the XMM but not the YMM registers (XCR0 bit 1 set, bit 2 clear)"
breaks="isSet tests for any of the bits, so AVX, AVX2 and FMA are reported although the OS does not save the YMM state"
overlay={"dsp/internal/cpu/cpu_x86.s": "fakecpu.txt"}
files={"fakecpu.txt": '''
#include "textflag.h"

// func cpuid(eaxArg, ecxArg uint32) (eax, ebx, ecx, edx uint32): everything present
TEXT ·cpuid(SB), NOSPLIT, $0-24
	MOVL $0x7fffffff, eax+8(FP)
	MOVL $0xffffffff, ebx+12(FP)
	MOVL $0xffffffff, ecx+16(FP)
	MOVL $0xffffffff, edx+20(FP)
	RET

// func xgetbv() (eax, edx uint32): answers the demonstration's XCR0
TEXT ·xgetbv(SB),NOSPLIT,$0-8
	MOVL ·fakeXCR0(SB), AX
	MOVL AX, eax+0(FP)
	MOVL $0, edx+4(FP)
	RET
'''}
demo='''
package cpu

import "testing"

var fakeXCR0 uint32

func TestVerifDemo(t *testing.T) {
	for fakeXCR0 = 0; fakeXCR0 < 8; fakeXCR0++ {
		Initialize("")
		want := fakeXCR0&6 == 6
		if X86.HasAVX != want || X86.HasAVX2 != want || X86.HasFMA != want {
			t.Errorf("XCR0 %d: AVX %v AVX2 %v FMA %v, want %v", fakeXCR0, X86.HasAVX, X86.HasAVX2, X86.HasFMA, want)
		}
	}
}
'''
