CONSTANTS
 CurveX <- RealX
 CurveXNeg <- RealXNeg
 P <- RealP
 Q <- RealQ
 CurveB <- RealB
 Radix <- RealRadix
 Gen1 <- RealG1
 Gen2 <- RealG2
INIT Init
NEXT Next
INVARIANT AllHold
CHECK_DEADLOCK FALSE
