SPECIFICATION MSpec
CONSTANT Off = {}
CONSTANT Ends <- EndsA
CONSTANT Vals <- ValsB
CONSTANT MaxN = 2
CONSTANT Units = {"", "None", "Seconds", "Milliseconds", "Bytes"}
CONSTANT Forms = {"float", "dur", "bad"}
INVARIANTS SaneInv EmitInit EmitState
ACTION_CONSTRAINT Emit
PROPERTIES Changes UnitOnce MinMax
VIEW View
CHECK_DEADLOCK FALSE
