SPECIFICATION Spec
INVARIANTS DecodeInverts OwnDisjoint NumberInRange NumbersInjective
CHECK_DEADLOCK FALSE
