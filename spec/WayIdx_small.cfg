CONSTANTS MaxWay = 3 Locs = {3, 4, 9} MaxLen = 2 NBlocks = 2 Aligns = {1, 2, 4} MaxPasses = 4
SPECIFICATION Spec
INVARIANTS LookupsExact PassesPartition PassesExact Aligned WellFormed
CHECK_DEADLOCK FALSE
