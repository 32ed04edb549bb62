SPECIFICATION MSpec
INVARIANTS ReadsBack Twice Cut
CHECK_DEADLOCK FALSE
