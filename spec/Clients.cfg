INIT Init
NEXT Next
INVARIANT Independent
CHECK_DEADLOCK FALSE
