CONSTANT Off <- OffSet
SPECIFICATION TSpec
INVARIANTS Accept Progress
CHECK_DEADLOCK FALSE
