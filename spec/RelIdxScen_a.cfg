CONSTANTS MaxWay = 3 MaxMembers = 2 MaxRels = 2 MaxPasses = 2 FlushAt = 5
INIT Init
NEXT Idle
INVARIANT Emit
CHECK_DEADLOCK FALSE
