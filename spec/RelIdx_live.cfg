CONSTANTS MaxWay = 3 MaxMembers = 2 MaxRels = 1 MaxPasses = 3 FlushAt = 3
SPECIFICATION Spec
INVARIANTS Exact TwoFiles
PROPERTIES Ends
CHECK_DEADLOCK FALSE
