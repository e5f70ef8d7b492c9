SPECIFICATION TraceSpec
CONSTANTS Strip = TRUE
          Detection = "none"
INVARIANT Accept
CHECK_DEADLOCK FALSE
