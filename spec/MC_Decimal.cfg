SPECIFICATION Spec
INVARIANT Unique Exact Tie
CHECK_DEADLOCK FALSE
