SPECIFICATION Spec
INVARIANTS Nested Ordered Complete
PROPERTY Finishes
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
