SPECIFICATION Spec
CONSTANTS Workers = {w1, w2, w3}
 Blocks <- BlocksSmall
 Designs = {"split"}
INVARIANT Exact

CHECK_DEADLOCK FALSE
