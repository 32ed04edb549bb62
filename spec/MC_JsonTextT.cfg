SPECIFICATION Spec
CONSTANT MaxLen = 5
PROPERTY Finishes
CHECK_DEADLOCK FALSE
