INIT Init
NEXT Next
INVARIANTS TextsRight ConversionsRight
CHECK_DEADLOCK FALSE
