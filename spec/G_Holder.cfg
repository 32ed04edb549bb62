SPECIFICATION GSpec
CONSTANTS
  Slots = {0, 1}
  Moved <- GMoved
VIEW GView
ACTION_CONSTRAINT Edge
INVARIANT TypeOk
PROPERTIES NoDup Local SourceKept Valued
CHECK_DEADLOCK FALSE
