INIT Init
NEXT Next
INVARIANT EngineAgrees
CHECK_DEADLOCK FALSE
