SPECIFICATION TySpec
INVARIANTS Agree Nearest Emit
CHECK_DEADLOCK FALSE
