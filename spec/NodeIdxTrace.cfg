INIT Init
NEXT Next
INVARIANT CoverMonotone
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
