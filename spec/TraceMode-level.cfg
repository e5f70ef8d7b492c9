SPECIFICATION TraceSpec
CONSTANTS Strip = FALSE
          Detection = "level"
INVARIANTS TypeOKTrace StripNever Precedence
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK TRUE
