SPECIFICATION Spec
CONSTANT N = 9
INVARIANT Export
CHECK_DEADLOCK FALSE
