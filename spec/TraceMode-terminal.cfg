SPECIFICATION TraceSpec
CONSTANTS Strip = FALSE
          Detection = "terminal"
INVARIANTS TypeOKTrace StripNever Precedence
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK TRUE
