CONSTANT Slots = {0, 1}
SPECIFICATION MCSpec
INVARIANT Delivers
CHECK_DEADLOCK FALSE
