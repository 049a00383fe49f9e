INIT Init
NEXT Next
INVARIANT Right Ends
CHECK_DEADLOCK FALSE
