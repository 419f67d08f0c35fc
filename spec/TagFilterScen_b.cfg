CONSTANTS Keys <- KeysB MaxEntities = 1 MaxBlocks = 3 MaxTags = 1
INIT Init
NEXT Idle
INVARIANT Emit
CHECK_DEADLOCK FALSE
