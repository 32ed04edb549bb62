SPECIFICATION Spec
CONSTANT HMax = 0
INVARIANT RoundTrip
INVARIANT Arith
CHECK_DEADLOCK FALSE
