CONSTANTS Tools = {"blockcount", "entitycount", "entityfind", "decompress", "nodeindex", "tagfilter", "wayindex", "relindex", "rewritenodes", "dumpnodeindex", "dumpwayindex"} MaxExtra = 1 Places = "all" Policy = "right"
INIT Init
NEXT Next
CONSTRAINT Never
INVARIANT Emit
CHECK_DEADLOCK FALSE
