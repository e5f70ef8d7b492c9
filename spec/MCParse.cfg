INIT Init
NEXT Next
VIEW View
INVARIANTS AgreesWithDirect OneMore Dumped
CHECK_DEADLOCK FALSE
