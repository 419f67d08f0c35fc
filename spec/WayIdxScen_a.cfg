CONSTANTS MaxWay = 3 Locs = {1, 2} MaxLen = 2 NBlocks = 2 Aligns = {1, 2, 4} MaxPasses = 1
INIT Init
NEXT Idle
INVARIANT Emit
CHECK_DEADLOCK FALSE
