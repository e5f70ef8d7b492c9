INIT Init
NEXT Next
INVARIANTS InterpreterRight LibraryRight
CHECK_DEADLOCK FALSE
