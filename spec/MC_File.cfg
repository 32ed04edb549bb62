SPECIFICATION Spec
INVARIANT OnlyThatFile Stored NeverRefuser
CHECK_DEADLOCK FALSE
