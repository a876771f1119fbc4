CONSTANTS
  Off = {}
  Groups = {1, 2}
  Reqs = {1, 2}
  MaxWant = 2
  Eager = FALSE
  Fns = 1
SPECIFICATION LiveSpec
PROPERTY Ends
CHECK_DEADLOCK FALSE
