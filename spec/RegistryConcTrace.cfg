SPECIFICATION TSpec
INVARIANT Accept
INVARIANT Progress
CHECK_DEADLOCK FALSE
