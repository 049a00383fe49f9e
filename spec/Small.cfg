CONSTANTS
 CurveX <- SmallX
 CurveXNeg <- SmallNeg
 P <- SmallP
 Q <- SmallQ
 CurveB <- SmallB
 Radix <- SmallRadix
INIT Init
NEXT Next
INVARIANT AllHold
CHECK_DEADLOCK FALSE
