SPECIFICATION Spec
CONSTANTS KindsUsed = {0, 1, 2, 3, 4, 27} Sets = 2
INVARIANTS Exact
CHECK_DEADLOCK FALSE
