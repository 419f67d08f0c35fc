CONSTANTS Tools = {"relindex", "wayindex"} MaxExtra = 2 Places = "ends" Policy = "overdefault"
INIT Init
NEXT Next
INVARIANTS Decided Untouched Meant
CHECK_DEADLOCK FALSE
