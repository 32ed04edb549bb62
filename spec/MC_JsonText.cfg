SPECIFICATION Spec
CONSTANT MaxLen = 3
PROPERTY Finishes
CHECK_DEADLOCK FALSE
