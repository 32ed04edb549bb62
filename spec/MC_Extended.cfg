CONSTANT Slots = {0, 1, 2}
SPECIFICATION MSpec
INVARIANTS TotalOrder AbsentEqual
PROPERTIES PresenceKept Indep ResourceHome
CHECK_DEADLOCK FALSE
