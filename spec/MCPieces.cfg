SPECIFICATION Spec
CONSTANTS PieceSet <- MCPieceSet
          MaxJoined = 2
          MaxOps = 3
INVARIANTS WellFormed Exact OnlyTouched OffUndoesOn
CHECK_DEADLOCK FALSE
