SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Slots = {0, 1, 2, 3, 4, 5}
