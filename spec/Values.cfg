SPECIFICATION VSpec
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
