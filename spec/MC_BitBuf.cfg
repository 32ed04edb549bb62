SPECIFICATION MCSpec
INVARIANT Order
CONSTANTS
 Slots = {1, 2, 3}
 MaxLen = 3
CHECK_DEADLOCK FALSE
