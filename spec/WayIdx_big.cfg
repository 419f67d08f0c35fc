CONSTANTS MaxWay = 5 Locs = {3, 9} MaxLen = 2 NBlocks = 2 Aligns = {1, 4} MaxPasses = 7
SPECIFICATION Spec
INVARIANTS LookupsExact PassesPartition PassesExact Aligned WellFormed
CHECK_DEADLOCK FALSE
