CONSTANTS MaxId = 2 MaxRefs = 2 NBlocks = 2 MaxPasses = 3
SPECIFICATION Spec
INVARIANTS Exact InputIntact NothingLeft Available
PROPERTIES NeverUndone Ends
CHECK_DEADLOCK FALSE
