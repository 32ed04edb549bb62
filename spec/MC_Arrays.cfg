SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Starts = {3}
 Lays = {"auto", "aligned"}
INVARIANTS RoundTrip DeltaRule
CHECK_DEADLOCK FALSE
