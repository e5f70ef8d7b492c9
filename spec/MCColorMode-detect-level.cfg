SPECIFICATION MCSpec
CONSTANTS Strip = FALSE
          Detection = "level"
          QueryKinds <- KindsLevel
          QueryStreams <- AllStreams
          DfltStreams <- Streams
          SupLevels = {0, 1, 2, 3}
          Redirects = TRUE
          EnvValues = {"-"}
          WithEnv = FALSE
VIEW View
ACTION_CONSTRAINT Export
INVARIANTS TypeOK StripNever Precedence Monotone
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK FALSE
