SPECIFICATION TraceSpec
CONSTANTS Strip = TRUE
          Detection = "level"
INVARIANTS TypeOKTrace StripNever Precedence
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK TRUE
