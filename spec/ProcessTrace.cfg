SPECIFICATION PSpec
INVARIANTS Accept Progress
CHECK_DEADLOCK FALSE
