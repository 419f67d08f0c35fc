INIT Init
NEXT Next
INVARIANTS Conserved Prefix
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
