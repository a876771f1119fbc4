SPECIFICATION MSpec
CONSTANT Off = {}
CONSTANT Ends <- EndsA
CONSTANT Vals <- ValsA
CONSTANT MaxN = 4
CONSTANT Units = {"None"}
CONSTANT Forms = {"float"}
INVARIANTS SaneInv EmitInit EmitState
ACTION_CONSTRAINT Emit
PROPERTIES Changes UnitOnce MinMax
VIEW View
CHECK_DEADLOCK FALSE
