SPECIFICATION Spec
CONSTANTS Names = {1, 2}
CONSTANT Depth = 2
CONSTANT MaxStale = 1
INVARIANTS TreeOK ListingOK EmitInit EmitState
PROPERTIES FailureChangesNothing OnlyUnregRemoves KindStable
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
