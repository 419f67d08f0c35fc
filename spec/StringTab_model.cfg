CONSTANTS Strs = {0, 1, 2, 3} Maps <- SomeMaps MaxOps = 4
INIT Init
NEXT Next
INVARIANTS EmptyFirst Once Complete Resolves Ordered OrderFree
CHECK_DEADLOCK FALSE
