CONSTANTS MaxWay = 2 Locs = {1, 2, 3} MaxLen = 4 NBlocks = 1 Aligns = {1, 4} MaxPasses = 1
INIT Init
NEXT Idle
INVARIANT Emit
CHECK_DEADLOCK FALSE
