SPECIFICATION MSpec
INVARIANTS ConstKeeps RefusedKeeps LookingKeeps Frame ReadBack FindIsWalk SameIsEq
CHECK_DEADLOCK FALSE
