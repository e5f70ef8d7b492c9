SPECIFICATION TraceSpec
CONSTANTS Strip = FALSE
          Detection = "none"
INVARIANT Accept
CHECK_DEADLOCK FALSE
