SPECIFICATION GSpec
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
