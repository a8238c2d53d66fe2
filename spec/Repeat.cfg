SPECIFICATION RepeatSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
