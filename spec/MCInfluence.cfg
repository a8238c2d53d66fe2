SPECIFICATION Spec
CONSTANTS B = 2
          P = 2
INVARIANTS OnlyReached AllReached CutShows
CHECK_DEADLOCK FALSE
