SPECIFICATION PSpec
CONSTANT More = FALSE
INVARIANTS Near Calendar Emit
CHECK_DEADLOCK FALSE
