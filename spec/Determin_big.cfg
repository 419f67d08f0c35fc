CONSTANTS Blocks = 4 Workers = {w1, w2, w3} Need <- NeedAll
SPECIFICATION Spec
INVARIANT OneOutput
CHECK_DEADLOCK FALSE
