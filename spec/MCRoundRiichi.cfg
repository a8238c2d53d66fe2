CONSTANTS
  HandTiles = 4
  DrawLimit = 5
  MaxDora = 1
  UseDeals = {3, 4, 5}
  FreeSeats = {1}
SPECIFICATION Spec
INVARIANTS Invariant RiichiReady WinsSound KansReplaced OneActor OwnView
PROPERTIES Steps
CHECK_DEADLOCK FALSE
