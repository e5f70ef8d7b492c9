SPECIFICATION MCSpec
CONSTANTS Strip = TRUE
          Detection = "level"
          QueryKinds <- KindsTerminal
          QueryStreams <- AllStreams
          DfltStreams <- Streams
          SupLevels = {0, 3}
          Redirects = TRUE
          EnvValues = {"-"}
          WithEnv = FALSE
VIEW View
ACTION_CONSTRAINT Export
INVARIANTS TypeOK StripNever Precedence Monotone
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK FALSE
