SPECIFICATION TSpec
CONSTANTS
  Conns = {0, 1, 2}
  Handles = {1, 2, 3}
  Stmts = {0, 1}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
