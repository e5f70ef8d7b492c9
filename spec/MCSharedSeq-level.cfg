SPECIFICATION SeqSpec
CONSTANTS Strip = FALSE
          Detection = "level"
          Threads = {1}
          SetOrd = "rel"
          GetOrd = "acq"
          CacheStore = "rlx"
          CacheLoad = "acq"
          MaxOps = 2
INVARIANTS TypeOK NeverOlder DecisionsExplained CachesRight
PROPERTIES Implements OneSetting Coherent
CHECK_DEADLOCK FALSE
