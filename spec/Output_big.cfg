SPECIFICATION Spec
CONSTANTS N = 7
 P = 5
 Designs = {"ok"}
 MaxFail = 5
INVARIANT Honest
PROPERTY Ends
CHECK_DEADLOCK FALSE
