SPECIFICATION LogsSpec
INVARIANTS Report InputOK
CHECK_DEADLOCK FALSE
