CONSTANTS MaxId = 2 MaxRefs = 1 NBlocks = 3 MaxPasses = 3
INIT Init
NEXT Next
CONSTRAINT Stop
INVARIANT Emit
CHECK_DEADLOCK FALSE
