SPECIFICATION BSpec
CONSTANT Off = {}
CONSTANT Counts = {0, 1, 2, 3, 5, 8}
CONSTANT Starts <- StartsA
CONSTANT Scales <- ScalesA
CONSTANT Incs <- IncsA
CONSTANT Lowers <- LowersA
CONSTANT Spans <- SpansA
INVARIANTS Ascending NumRanges Example ManyOK Emit
CHECK_DEADLOCK FALSE
