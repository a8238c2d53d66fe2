SPECIFICATION TraceSpec
CONSTANTS HandTiles = 13
          DrawLimit = 70
INVARIANT Report
CHECK_DEADLOCK FALSE
