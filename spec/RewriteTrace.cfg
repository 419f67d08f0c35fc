INIT Init
NEXT Next
INVARIANT Sane
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
