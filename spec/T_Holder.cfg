SPECIFICATION TSpec
CONSTANT Slots = {0, 1, 2}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
