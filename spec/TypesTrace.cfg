SPECIFICATION TtSpec
INVARIANTS Accept Progress
CHECK_DEADLOCK FALSE
