SPECIFICATION TraceSpec
CONSTANTS Strip = FALSE
          Detection = "terminal"
INVARIANT Accept
CHECK_DEADLOCK FALSE
