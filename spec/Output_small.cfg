SPECIFICATION Spec
CONSTANTS N = 3
 P = 3
 Designs = {"ok"}
 MaxFail = 3
INVARIANT Honest
PROPERTY Ends
CHECK_DEADLOCK FALSE
