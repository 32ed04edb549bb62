SPECIFICATION MCSpec
CONSTANTS
 Slots = {0, 1, 2}
 Resources = {0, 1}
INVARIANT TypeOk
PROPERTY Fixed
CHECK_DEADLOCK FALSE
