SPECIFICATION TraceSpec
CONSTANTS Strip = TRUE
          Detection = "level"
INVARIANT Accept
CHECK_DEADLOCK FALSE
