SPECIFICATION TraceSpec
CONSTANTS Strip = FALSE
          Detection = "none"
INVARIANTS TypeOKTrace StripNever Precedence
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK TRUE
