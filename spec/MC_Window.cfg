SPECIFICATION MCSpec
CONSTANT Slots = {0, 1}
INVARIANT Addressed
CHECK_DEADLOCK FALSE
