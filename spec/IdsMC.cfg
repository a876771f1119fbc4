SPECIFICATION Spec
CONSTANTS
  Owner = {0, 1, 2}
  Paths = {0, 1, 2, 3}
  MaxT = 1
INVARIANTS Unique AlwaysOK
PROPERTY Stable
CHECK_DEADLOCK FALSE
