SPECIFICATION MSpec
INVARIANTS FindIsWalk FindFails ParamsFollow ReadsBack PartsToo
CHECK_DEADLOCK FALSE
