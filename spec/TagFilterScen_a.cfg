CONSTANTS Keys <- KeysA MaxEntities = 3 MaxBlocks = 1 MaxTags = 2
INIT Init
NEXT Idle
INVARIANT Emit
CHECK_DEADLOCK FALSE
