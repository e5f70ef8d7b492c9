INIT Init
NEXT Next
INVARIANT SameOutput
CHECK_DEADLOCK FALSE
