CONSTANTS
  HandTiles = 4
  DrawLimit = 3
  MaxDora = 1
  UseDeals = {1, 2, 3}
  FreeSeats = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS Invariant RiichiReady WinsSound KansReplaced OneActor OwnView
PROPERTIES Steps
CHECK_DEADLOCK FALSE
