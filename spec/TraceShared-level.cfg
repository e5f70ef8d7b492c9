SPECIFICATION TraceSpec
CONSTANTS Strip = FALSE
          Detection = "level"
INVARIANT Accept
CHECK_DEADLOCK FALSE
