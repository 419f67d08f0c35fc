INIT Init
NEXT Next
CONSTANTS
 NW = 9
 NR = 8
INVARIANTS Emit
CHECK_DEADLOCK FALSE
