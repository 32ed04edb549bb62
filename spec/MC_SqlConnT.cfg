SPECIFICATION Spec
CONSTANTS
  Conns = {0, 1}
  Handles = {1, 2}
  Stmts = {0, 1}
  Vals = {1, 2}
VIEW View
INVARIANTS OneOwner OwnsLive OneWriter LocksEnd NoLeak
PROPERTIES OnlyCommits Whole ClosesOwn Told
CHECK_DEADLOCK FALSE
