SPECIFICATION GSpec
VIEW GView
ACTION_CONSTRAINT Edge
INVARIANTS Root1 Nested
PROPERTY Steps
CHECK_DEADLOCK FALSE
