CONSTANTS MaxWay = 2 Locs = {3, 4, 9} MaxLen = 4 NBlocks = 1 Aligns = {1, 3, 4} MaxPasses = 3
SPECIFICATION Spec
INVARIANTS LookupsExact PassesPartition PassesExact Aligned WellFormed
CHECK_DEADLOCK FALSE
