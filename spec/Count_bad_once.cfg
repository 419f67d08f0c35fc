SPECIFICATION Spec
CONSTANTS Workers = {w1, w2, w3}
 Blocks <- BlocksSmall
 Designs = {"once"}
INVARIANT Exact

CHECK_DEADLOCK FALSE
