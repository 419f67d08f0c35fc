CONSTANTS MaxId = 6 NBlocks = 3 MaxPasses = 4 MaxFill = 1
SPECIFICATION Spec
INVARIANTS EmitFile WellFormed
CHECK_DEADLOCK FALSE
