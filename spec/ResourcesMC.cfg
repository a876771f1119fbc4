SPECIFICATION MSpec
CONSTANTS MaxGroups = 1
INVARIANTS TypeOK EmitInit
PROPERTIES NoHistory
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
