INIT Init
NEXT Idle
INVARIANT Emit
CHECK_DEADLOCK FALSE
