SPECIFICATION Spec
CONSTANTS Launches = 4
INVARIANTS Numbered OwnModel Kept Apart Distinct
CHECK_DEADLOCK FALSE
