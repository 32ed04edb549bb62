SPECIFICATION MCSpec
INVARIANT Right
INVARIANT Ordered
CHECK_DEADLOCK FALSE
