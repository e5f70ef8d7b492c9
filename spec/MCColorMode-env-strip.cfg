SPECIFICATION MCSpec
CONSTANTS Strip = TRUE
          Detection = "level"
          QueryKinds <- AnsiOnly
          QueryStreams <- FixedOrNone
          DfltStreams <- FixedStreams
          SupLevels = {0}
          Redirects = FALSE
          EnvValues = {"-", "0", "1"}
          WithEnv = TRUE
VIEW View
ACTION_CONSTRAINT Export
INVARIANTS TypeOK StripNever Precedence Monotone
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK FALSE
