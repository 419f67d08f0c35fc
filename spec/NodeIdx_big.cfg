CONSTANTS MaxId = 7 NBlocks = 3 MaxPasses = 6 MaxFill = 1
SPECIFICATION Spec
INVARIANTS LookupsExact PassesPartition PassesExact PassesBalanced HintsUsable WellFormed
CHECK_DEADLOCK FALSE
