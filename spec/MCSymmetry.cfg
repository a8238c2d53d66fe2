CONSTANTS
  HandTiles = 4
  DrawLimit = 2
  MaxDora = 1
  UseDeals = {1, 2, 3, 4}
  FreeSeats = {1, 2}
SPECIFICATION Spec
INVARIANTS Commutes
CHECK_DEADLOCK FALSE
