SPECIFICATION Spec
CONSTANTS
  Stems = {"scc1", "scc2", "sca1"}
  Bodies = {"x", "y"}
  MaxFiles = 4
  MaxCrashes = 2
INVARIANTS Result Lossless Idempotent
PROPERTY Ends
CHECK_DEADLOCK FALSE
