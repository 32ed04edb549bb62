SPECIFICATION TSpec
CONSTANTS
 Slots = {0, 1, 2}
 Capacity = 511
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
