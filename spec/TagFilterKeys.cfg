CONSTANTS Keys <- KeysB MaxEntities = 0 MaxBlocks = 0 MaxTags = 0
INIT OneState
NEXT Idle
INVARIANT EmitKeys
CHECK_DEADLOCK FALSE
