SPECIFICATION Spec
CONSTANTS Workers = {w1, w2, w3}
 Blocks <- BlocksSmall
 Designs = {"ok"}
INVARIANT Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
