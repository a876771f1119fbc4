CONSTANTS
  Off = {}
  Groups = {1, 2}
  Reqs = {1, 2}
  MaxWant = 2
  Eager = FALSE
  Fns = 2
SPECIFICATION Spec
INVARIANTS ReadersConsistent OneUpdate UpdForRequest InsideOK FreeAtEnd QuietOK
PROPERTY UpdatesAgain
CHECK_DEADLOCK FALSE
