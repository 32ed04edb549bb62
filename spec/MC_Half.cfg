SPECIFICATION Spec
CONSTANT HMax = 31743
INVARIANT Widening
CHECK_DEADLOCK FALSE
