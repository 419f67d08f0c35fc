CONSTANTS MaxWay = 3 MaxMembers = 2 MaxRels = 2 MaxPasses = 4 FlushAt = 6
SPECIFICATION Spec
INVARIANTS Exact TwoFiles
CHECK_DEADLOCK FALSE
