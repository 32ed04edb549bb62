SPECIFICATION Spec
INVARIANT RoundTrip Total
CHECK_DEADLOCK FALSE
