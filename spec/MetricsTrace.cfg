SPECIFICATION TSpec
INVARIANTS Done Tell At
CHECK_DEADLOCK FALSE
