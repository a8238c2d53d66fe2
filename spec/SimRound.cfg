CONSTANTS
  HandTiles = 13
  DrawLimit = 70
SPECIFICATION Spec
INVARIANTS Sound Report
CHECK_DEADLOCK FALSE
