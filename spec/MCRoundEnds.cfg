CONSTANTS
  HandTiles = 4
  DrawLimit = 2
  MaxDora = 1
  UseDeals = {1, 2, 3, 5}
  FreeSeats = {0, 1, 2, 3}
SPECIFICATION FairSpec
PROPERTIES Ends
CHECK_DEADLOCK FALSE
