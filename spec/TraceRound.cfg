SPECIFICATION TraceSpec
CONSTANTS HandTiles = 13 DrawLimit = 70
INVARIANTS Report Sound
CHECK_DEADLOCK FALSE
