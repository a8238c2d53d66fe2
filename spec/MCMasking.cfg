SPECIFICATION Spec
CONSTANTS Range = 4 Depth = 8 Cut = 4 Actions = 4
INVARIANTS Sound Order Refused
CHECK_DEADLOCK FALSE
