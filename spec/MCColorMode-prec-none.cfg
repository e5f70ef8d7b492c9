SPECIFICATION MCSpec
CONSTANTS Strip = FALSE
          Detection = "none"
          QueryKinds <- AnsiOnly
          QueryStreams <- AllStreams
          DfltStreams <- Streams
          SupLevels = {0}
          Redirects = FALSE
          EnvValues = {"-"}
          WithEnv = FALSE
VIEW View
ACTION_CONSTRAINT Export
INVARIANTS TypeOK StripNever Precedence Monotone
PROPERTIES CacheStable DetectOwn Independent
CHECK_DEADLOCK FALSE
