CONSTANTS MaxId = 2 MaxRefs = 3 NBlocks = 2 MaxPasses = 4
SPECIFICATION Spec
INVARIANTS Exact InputIntact NothingLeft Available
CHECK_DEADLOCK FALSE
