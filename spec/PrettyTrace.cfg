SPECIFICATION PTSpec
INVARIANTS Accept Progress
CHECK_DEADLOCK FALSE
