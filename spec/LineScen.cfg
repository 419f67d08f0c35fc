INIT Init
NEXT Next
CONSTANTS
 NW = 7
 NR = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE
