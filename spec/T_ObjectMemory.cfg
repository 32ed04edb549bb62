SPECIFICATION TSpec
CONSTANTS
 Slots = {0, 1, 2, 3}
 Resources = {0, 1, 2}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
