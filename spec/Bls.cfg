INIT Init
NEXT Next
VIEW View
INVARIANT Sound Complete Shown
CHECK_DEADLOCK FALSE
