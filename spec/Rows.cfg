SPECIFICATION RowsSpec
INVARIANTS Report Ordered
CHECK_DEADLOCK FALSE
