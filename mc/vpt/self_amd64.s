#include "textflag.h"

// func Self() uintptr
TEXT ·Self(SB),NOSPLIT,$0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
