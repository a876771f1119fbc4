CONSTANT Off <- OffSet
SPECIFICATION LSpec
INVARIANTS Accept Progress
CHECK_DEADLOCK FALSE
