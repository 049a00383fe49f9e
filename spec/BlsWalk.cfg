INIT Init
NEXT Next
INVARIANT Shown
CHECK_DEADLOCK FALSE
