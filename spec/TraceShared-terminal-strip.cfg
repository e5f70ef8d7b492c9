SPECIFICATION TraceSpec
CONSTANTS Strip = TRUE
          Detection = "terminal"
INVARIANT Accept
CHECK_DEADLOCK FALSE
