CONSTANTS
  Off = {}
  Groups = {1, 2}
  Reqs = {1, 2, 3}
  MaxWant = 2
  Eager = TRUE
  Fns = 1
SPECIFICATION Spec
VIEW View
INVARIANTS ReadersConsistent OneUpdate UpdForRequest InsideOK FreeAtEnd QuietOK EmitInit
PROPERTY UpdatesAgain
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
