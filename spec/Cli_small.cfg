CONSTANTS Tools = {"entityfind", "wayindex", "dumpwayindex", "relindex"} MaxExtra = 1 Places = "all" Policy = "right"
INIT Init
NEXT Next
INVARIANTS Decided Untouched Meant
CHECK_DEADLOCK FALSE
