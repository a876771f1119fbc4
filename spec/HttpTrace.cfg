SPECIFICATION HtSpec
INVARIANTS Accept Progress
CHECK_DEADLOCK FALSE
