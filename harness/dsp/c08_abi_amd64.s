#include "textflag.h"

// func vCallABI0(fn uintptr, args *[16]uint64) bool
// Calls an assembly function with the given argument words and reports
// whether the frame pointer survived the call.
TEXT ·vCallABI0(SB), 0, $144-17
	MOVQ args+8(FP), SI
	MOVQ SP, DI
	MOVQ $16, CX
	REP; MOVSQ
	MOVQ BP, 128(SP)
	MOVQ fn+0(FP), AX
	CALL AX
	MOVQ 128(SP), CX
	CMPQ CX, BP
	SETEQ AX
	MOVQ CX, BP
	MOVB AX, ret+16(FP)
	MOVQ args+8(FP), DI
	MOVQ SP, SI
	MOVQ $16, CX
	REP; MOVSQ
	RET

// func vFuncAddr(i int) uintptr
TEXT ·vFuncAddr(SB), NOSPLIT, $0-16
	MOVQ i+0(FP), CX
	XORQ AX, AX
	CMPQ CX, $0
	JNE  n0
	MOVQ $·Ui8toi16(SB), AX
n0:
	CMPQ CX, $1
	JNE  n1
	MOVQ $·Ui8toi16b(SB), AX
n1:
	CMPQ CX, $2
	JNE  n2
	MOVQ $·Ui8tof32(SB), AX
n2:
	CMPQ CX, $3
	JNE  n3
	MOVQ $·I8tof32(SB), AX
n3:
	CMPQ CX, $4
	JNE  n4
	MOVQ $·Ui8toc64(SB), AX
n4:
	CMPQ CX, $5
	JNE  n5
	MOVQ $·F32toi16(SB), AX
n5:
	CMPQ CX, $6
	JNE  n6
	MOVQ $·F32toi16ble(SB), AX
n6:
	CMPQ CX, $7
	JNE  n7
	MOVQ $·I16ToBLE(SB), AX
n7:
	CMPQ CX, $8
	JNE  n8
	MOVQ $·I16bleToF64(SB), AX
n8:
	CMPQ CX, $9
	JNE  n9
	MOVQ $·I16bleToF32(SB), AX
n9:
	CMPQ CX, $10
	JNE  n10
	MOVQ $·VMulC64xF32(SB), AX
n10:
	CMPQ CX, $11
	JNE  n11
	MOVQ $·VScaleF32(SB), AX
n11:
	CMPQ CX, $12
	JNE  n12
	MOVQ $·VAbsC64(SB), AX
n12:
	CMPQ CX, $13
	JNE  n13
	MOVQ $·VMaxF32(SB), AX
n13:
	CMPQ CX, $14
	JNE  n14
	MOVQ $·VMinF32(SB), AX
n14:
	CMPQ CX, $15
	JNE  n15
	MOVQ $·FastAtan2(SB), AX
n15:
	CMPQ CX, $16
	JNE  n16
	MOVQ $·FastAtan2_2(SB), AX
n16:
	MOVQ AX, ret+8(FP)
	RET
