SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Main = "a"
  OtherTypes = {"int", "duration"}
  Vals = {"0", "1"}
  Units = {"Milliseconds"}
INVARIANTS TypeOK Idempotent EmitInit Info
PROPERTIES Keeps
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
