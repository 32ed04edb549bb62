SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Starts = {0, 3, 7}
 Lays = {"normal", "auto", "aligned", "alignedauto"}
INVARIANTS RoundTrip DeltaRule
CHECK_DEADLOCK FALSE
