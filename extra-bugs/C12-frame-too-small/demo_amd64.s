#include "textflag.h"

// calls blockAMD64 with junk in every register that the calling convention leaves undefined
// func vAsm(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) (bp uint64)
TEXT ·vAsm(SB), 0, $104-104
	MOVQ h_base+0(FP), AX
	MOVQ AX, 0(SP)
	MOVQ h_len+8(FP), AX
	MOVQ AX, 8(SP)
	MOVQ h_cap+16(FP), AX
	MOVQ AX, 16(SP)
	MOVQ p_base+24(FP), AX
	MOVQ AX, 24(SP)
	MOVQ p_len+32(FP), AX
	MOVQ AX, 32(SP)
	MOVQ p_cap+40(FP), AX
	MOVQ AX, 40(SP)
	MOVQ m1_base+48(FP), AX
	MOVQ AX, 48(SP)
	MOVQ m1_len+56(FP), AX
	MOVQ AX, 56(SP)
	MOVQ m1_cap+64(FP), AX
	MOVQ AX, 64(SP)
	MOVQ cs_base+72(FP), AX
	MOVQ AX, 72(SP)
	MOVQ cs_len+80(FP), AX
	MOVQ AX, 80(SP)
	MOVQ cs_cap+88(FP), AX
	MOVQ AX, 88(SP)
	MOVQ $-8, AX
	MOVQ $-8, BX
	MOVQ $-8, CX
	MOVQ $-8, DX
	MOVQ $-8, SI
	MOVQ $-8, DI
	MOVQ $-8, R8
	MOVQ $-8, R9
	MOVQ $-8, R10
	MOVQ $-8, R11
	MOVQ $-8, R12
	MOVQ $-8, R13
	PCMPEQL X0, X0
	PCMPEQL X1, X1
	PCMPEQL X2, X2
	PCMPEQL X3, X3
	PCMPEQL X4, X4
	PCMPEQL X5, X5
	PCMPEQL X6, X6
	PCMPEQL X7, X7
	PCMPEQL X8, X8
	PCMPEQL X9, X9
	PCMPEQL X10, X10
	PCMPEQL X11, X11
	PCMPEQL X12, X12
	PCMPEQL X13, X13
	PCMPEQL X14, X14
	MOVQ BP, 96(SP)
	CALL ·blockAMD64(SB)
	XORQ 96(SP), BP
	MOVQ BP, bp+96(FP)
	MOVQ 96(SP), BP
	RET
TEXT ·vAsm8(SB), 0, $112-104
	MOVQ h_base+0(FP), AX
	MOVQ AX, 0(SP)
	MOVQ h_len+8(FP), AX
	MOVQ AX, 8(SP)
	MOVQ h_cap+16(FP), AX
	MOVQ AX, 16(SP)
	MOVQ p_base+24(FP), AX
	MOVQ AX, 24(SP)
	MOVQ p_len+32(FP), AX
	MOVQ AX, 32(SP)
	MOVQ p_cap+40(FP), AX
	MOVQ AX, 40(SP)
	MOVQ m1_base+48(FP), AX
	MOVQ AX, 48(SP)
	MOVQ m1_len+56(FP), AX
	MOVQ AX, 56(SP)
	MOVQ m1_cap+64(FP), AX
	MOVQ AX, 64(SP)
	MOVQ cs_base+72(FP), AX
	MOVQ AX, 72(SP)
	MOVQ cs_len+80(FP), AX
	MOVQ AX, 80(SP)
	MOVQ cs_cap+88(FP), AX
	MOVQ AX, 88(SP)
	MOVQ $-8, AX
	MOVQ $-8, BX
	MOVQ $-8, CX
	MOVQ $-8, DX
	MOVQ $-8, SI
	MOVQ $-8, DI
	MOVQ $-8, R8
	MOVQ $-8, R9
	MOVQ $-8, R10
	MOVQ $-8, R11
	MOVQ $-8, R12
	MOVQ $-8, R13
	PCMPEQL X0, X0
	PCMPEQL X1, X1
	PCMPEQL X2, X2
	PCMPEQL X3, X3
	PCMPEQL X4, X4
	PCMPEQL X5, X5
	PCMPEQL X6, X6
	PCMPEQL X7, X7
	PCMPEQL X8, X8
	PCMPEQL X9, X9
	PCMPEQL X10, X10
	PCMPEQL X11, X11
	PCMPEQL X12, X12
	PCMPEQL X13, X13
	PCMPEQL X14, X14
	MOVQ BP, 96(SP)
	CALL ·blockAMD64(SB)
	XORQ 96(SP), BP
	MOVQ BP, bp+96(FP)
	MOVQ 96(SP), BP
	RET
