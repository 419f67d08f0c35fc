CONSTANTS MaxId = 5 NBlocks = 2 MaxPasses = 4 MaxFill = 1
SPECIFICATION Spec
INVARIANTS LookupsExact PassesPartition PassesExact PassesBalanced HintsUsable WellFormed
CHECK_DEADLOCK FALSE
