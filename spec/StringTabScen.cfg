CONSTANTS Strs = {0, 1, 2, 3} Maps <- SomeMaps MaxOps = 3
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
