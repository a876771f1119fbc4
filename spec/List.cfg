SPECIFICATION LSpec
CONSTANT Elems = {1, 2}
CONSTANT MaxLen = 3
INVARIANTS EmitInit EmitState
ACTION_CONSTRAINT Emit
PROPERTIES OnlyChanges
VIEW View
CHECK_DEADLOCK FALSE
