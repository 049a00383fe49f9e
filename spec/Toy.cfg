CONSTANTS
 CurveX <- ToyX
 CurveXNeg <- ToyNeg
 P <- ToyP
 Q <- ToyQ
 CurveB <- ToyB
 Radix <- ToyRadix
INIT Init
NEXT Next
INVARIANT AllHold
CHECK_DEADLOCK FALSE
