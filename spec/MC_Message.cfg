SPECIFICATION Spec
CONSTANTS
 Slots = {1, 2}
 Capacity = 3
INVARIANT Bounded
PROPERTIES OnlyOne AppendOnly
CHECK_DEADLOCK FALSE
