SPECIFICATION Spec
CONSTANTS KindsUsed = {0, 1, 2, 3, 4, 9, 10, 27} Sets = 1
INVARIANTS Exact
CHECK_DEADLOCK FALSE
