#include "textflag.h"

// Stand-ins for the CPUID and XGETBV instructions (the overlay puts a CALL in
// their place): they answer from vTab and vXcr.
TEXT ·vCPUIDHook(SB), NOSPLIT, $0
	LEAQ ·vTab(SB), R9
	CMPL AX, $0
	JEQ  found
	ADDQ $16, R9
	CMPL AX, $1
	JEQ  found
	ADDQ $16, R9
	CMPL AX, $7
	JNE  ext
	CMPL CX, $0
	JEQ  found
	JMP  none

ext:
	ADDQ $16, R9
	CMPL AX, $0x80000000
	JEQ  found

none:
	MOVL $0, AX
	MOVL $0, BX
	MOVL $0, CX
	MOVL $0, DX
	RET

found:
	MOVL 0(R9), AX
	MOVL 4(R9), BX
	MOVL 8(R9), CX
	MOVL 12(R9), DX
	RET

TEXT ·vXGETBVHook(SB), NOSPLIT, $0
	MOVL ·vXcr+0(SB), AX
	MOVL ·vXcr+4(SB), DX
	RET
