SPECIFICATION HSpec
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
