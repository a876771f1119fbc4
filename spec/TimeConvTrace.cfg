SPECIFICATION TTSpec
CONSTANT Units <- NoUnits
INVARIANTS Accept Progress
CHECK_DEADLOCK FALSE
