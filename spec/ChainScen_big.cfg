CONSTANTS MaxSteps = 7
INIT Init
NEXT Next
CONSTRAINT Useful
INVARIANT Emit
CHECK_DEADLOCK FALSE
