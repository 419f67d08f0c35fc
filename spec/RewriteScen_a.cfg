CONSTANTS MaxId = 2 MaxRefs = 3 NBlocks = 1 MaxPasses = 3
INIT Init
NEXT Next
CONSTRAINT Stop
INVARIANT Emit
CHECK_DEADLOCK FALSE
