SPECIFICATION Spec
VIEW View
INVARIANTS Named Consistent
PROPERTIES Local
CHECK_DEADLOCK FALSE
