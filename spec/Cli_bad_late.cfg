CONSTANTS Tools = {"relindex", "wayindex"} MaxExtra = 2 Places = "ends" Policy = "late"
INIT Init
NEXT Next
INVARIANTS Decided Untouched Meant
CHECK_DEADLOCK FALSE
