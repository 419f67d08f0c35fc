INIT Init
NEXT Next
CONSTANTS
 N = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
