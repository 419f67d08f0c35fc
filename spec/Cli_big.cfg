CONSTANTS Tools = {"blockcount", "entitycount", "entityfind", "decompress", "nodeindex", "tagfilter", "wayindex", "relindex", "rewritenodes", "dumpnodeindex", "dumpwayindex"} MaxExtra = 2 Places = "all" Policy = "right"
INIT Init
NEXT Next
INVARIANTS Decided Untouched Meant
CHECK_DEADLOCK FALSE
