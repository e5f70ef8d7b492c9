SPECIFICATION TraceSpec
CONSTANTS Strip = TRUE
          Detection = "none"
INVARIANTS TypeOKTrace StripNever Precedence
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK TRUE
