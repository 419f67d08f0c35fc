CONSTANTS Tools = {"entityfind", "wayindex", "dumpwayindex", "relindex"} MaxExtra = 2 Places = "ends" Policy = "right"
INIT Init
NEXT Next
INVARIANTS Decided Untouched Meant
CHECK_DEADLOCK FALSE
