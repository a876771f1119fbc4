SPECIFICATION MSpec
CONSTANT K = 2
CONSTANT MaxNames = 2
CONSTANT MaxLen = 2
INVARIANT OnePlace
INVARIANT ListedOK
INVARIANT NoLoss
CHECK_DEADLOCK FALSE
