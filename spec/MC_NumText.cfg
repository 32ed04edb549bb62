SPECIFICATION Spec
INVARIANTS Unsigned Signed Floats
CHECK_DEADLOCK FALSE
