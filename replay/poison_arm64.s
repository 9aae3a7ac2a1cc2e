#include "textflag.h"

// calls blockARM64 with junk in every register that the calling convention leaves undefined
// func vAsm(h []uint32, p []byte, m1 []uint32, cs [][5]uint32)
TEXT ·vAsm0(SB), 0, $104-96
	MOVD h_base+0(FP), R0
	MOVD R0, 8(RSP)
	MOVD h_len+8(FP), R0
	MOVD R0, 16(RSP)
	MOVD h_cap+16(FP), R0
	MOVD R0, 24(RSP)
	MOVD p_base+24(FP), R0
	MOVD R0, 32(RSP)
	MOVD p_len+32(FP), R0
	MOVD R0, 40(RSP)
	MOVD p_cap+40(FP), R0
	MOVD R0, 48(RSP)
	MOVD m1_base+48(FP), R0
	MOVD R0, 56(RSP)
	MOVD m1_len+56(FP), R0
	MOVD R0, 64(RSP)
	MOVD m1_cap+64(FP), R0
	MOVD R0, 72(RSP)
	MOVD cs_base+72(FP), R0
	MOVD R0, 80(RSP)
	MOVD cs_len+80(FP), R0
	MOVD R0, 88(RSP)
	MOVD cs_cap+88(FP), R0
	MOVD R0, 96(RSP)
	MOVD $-8, R0
	MOVD $-8, R1
	MOVD $-8, R2
	MOVD $-8, R3
	MOVD $-8, R4
	MOVD $-8, R5
	MOVD $-8, R6
	MOVD $-8, R7
	MOVD $-8, R8
	MOVD $-8, R9
	MOVD $-8, R10
	MOVD $-8, R11
	MOVD $-8, R12
	MOVD $-8, R13
	MOVD $-8, R14
	MOVD $-8, R15
	MOVD $-8, R16
	MOVD $-8, R17
	MOVD $-8, R19
	MOVD $-8, R20
	MOVD $-8, R21
	MOVD $-8, R22
	MOVD $-8, R23
	MOVD $-8, R24
	MOVD $-8, R25
	MOVD $-8, R26
	VDUP R0, V0.D2
	VDUP R0, V1.D2
	VDUP R0, V2.D2
	VDUP R0, V3.D2
	VDUP R0, V4.D2
	VDUP R0, V5.D2
	VDUP R0, V6.D2
	VDUP R0, V7.D2
	VDUP R0, V8.D2
	VDUP R0, V9.D2
	VDUP R0, V10.D2
	VDUP R0, V11.D2
	VDUP R0, V12.D2
	VDUP R0, V13.D2
	VDUP R0, V14.D2
	VDUP R0, V15.D2
	VDUP R0, V16.D2
	VDUP R0, V17.D2
	VDUP R0, V18.D2
	VDUP R0, V19.D2
	VDUP R0, V20.D2
	VDUP R0, V21.D2
	VDUP R0, V22.D2
	VDUP R0, V23.D2
	VDUP R0, V24.D2
	VDUP R0, V25.D2
	VDUP R0, V26.D2
	VDUP R0, V27.D2
	VDUP R0, V28.D2
	VDUP R0, V29.D2
	VDUP R0, V30.D2
	VDUP R0, V31.D2
	CALL ·blockARM64(SB)
	RET
