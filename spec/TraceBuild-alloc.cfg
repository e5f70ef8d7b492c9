INIT Init
NEXT Next
INVARIANT Frugal
CHECK_DEADLOCK FALSE
