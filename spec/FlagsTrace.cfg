SPECIFICATION FtSpec
INVARIANTS Accept Progress
CHECK_DEADLOCK FALSE
