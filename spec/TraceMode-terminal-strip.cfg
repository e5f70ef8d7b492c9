SPECIFICATION TraceSpec
CONSTANTS Strip = TRUE
          Detection = "terminal"
INVARIANTS TypeOKTrace StripNever Precedence
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK TRUE
