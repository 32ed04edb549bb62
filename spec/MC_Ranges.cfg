SPECIFICATION MCSpec
INVARIANT Tight
INVARIANT EncDec
CHECK_DEADLOCK FALSE
