SPECIFICATION TSpec
CONSTANTS Names = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24}
CONSTANT Depth = 6
CONSTANT MaxStale = 0
INVARIANTS Accept Progress
CHECK_DEADLOCK FALSE
