CONSTANTS MaxId = 6 NBlocks = 2 MaxPasses = 5 MaxFill = 3
SPECIFICATION Spec
INVARIANTS LookupsExact PassesPartition PassesExact PassesBalanced HintsUsable WellFormed
CHECK_DEADLOCK FALSE
