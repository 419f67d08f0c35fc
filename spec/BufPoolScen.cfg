CONSTANTS Users = {1, 2} Sizes = {0, 2, 3} MaxOps = 6
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
