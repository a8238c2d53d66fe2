SPECIFICATION BranchSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
