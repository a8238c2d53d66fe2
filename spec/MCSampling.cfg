SPECIFICATION Spec
CONSTANTS M = 6
          N = 7
INVARIANTS Complete WholeIfSmall Even EqualWays Biased
CHECK_DEADLOCK FALSE
