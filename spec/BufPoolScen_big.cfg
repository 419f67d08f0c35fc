CONSTANTS Users = {1, 2, 3} Sizes = {0, 2, 3} MaxOps = 7
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
