SPECIFICATION MSpec
INVARIANT Consistent
CHECK_DEADLOCK FALSE
