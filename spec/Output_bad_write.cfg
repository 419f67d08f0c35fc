SPECIFICATION Spec
CONSTANTS N = 3
 P = 3
 Designs = {"write"}
 MaxFail = 3
INVARIANT Honest

CHECK_DEADLOCK FALSE
