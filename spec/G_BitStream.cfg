SPECIFICATION GSpec
VIEW GView
ACTION_CONSTRAINT Edge
INVARIANT Inside
CHECK_DEADLOCK FALSE
