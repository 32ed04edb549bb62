SPECIFICATION Spec
INVARIANTS Answers NullOnlyNaN
CHECK_DEADLOCK FALSE
