INIT Init
NEXT Next
INVARIANTS KindsRight
CHECK_DEADLOCK FALSE
