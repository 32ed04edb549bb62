SPECIFICATION MSpec
INVARIANTS Accepts Reached OneWayOut
CHECK_DEADLOCK FALSE
