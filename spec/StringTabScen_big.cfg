CONSTANTS Strs = {0, 1, 2, 3} Maps <- SomeMaps MaxOps = 4
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
