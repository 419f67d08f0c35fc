CONSTANTS MaxWay = 3 MaxMembers = 2 MaxRels = 2 MaxPasses = 2 FlushAt = 5
SPECIFICATION Spec
INVARIANTS Exact TwoFiles
CHECK_DEADLOCK FALSE
