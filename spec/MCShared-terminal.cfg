SPECIFICATION MCSpec
CONSTANTS Strip = FALSE
          Detection = "terminal"
          Threads = {0, 1, 2, 3}
          SetOrd = "rel"
          GetOrd = "acq"
          CacheStore = "rlx"
          CacheLoad = "acq"
INVARIANTS TypeOK NeverOlder DecisionsExplained CachesRight Record
PROPERTIES OneSetting Coherent
CHECK_DEADLOCK FALSE
