SPECIFICATION MCSpec
CONSTANTS MaxOps = 3 MaxCap = 40
INVARIANT Exact
INVARIANT Positions
INVARIANT Finished
INVARIANT NeverStuck
INVARIANT Untouched
CHECK_DEADLOCK FALSE
