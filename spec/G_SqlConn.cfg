SPECIFICATION GSpec
CONSTANTS
  Conns <- GConns
  Handles <- GHandles
  Stmts <- GStmts
VIEW GView
ACTION_CONSTRAINT Edge
INVARIANTS OneOwner OwnsLive OneWriter LocksEnd NoLeak
CHECK_DEADLOCK FALSE
