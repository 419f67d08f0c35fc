SPECIFICATION Spec
CONSTANTS Workers = {w1, w2, w3, w4}
 Blocks <- BlocksBig
 Designs = {"ok"}
INVARIANT Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
