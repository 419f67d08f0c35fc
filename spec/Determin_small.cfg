CONSTANTS Blocks = 3 Workers = {w1, w2} Need <- NeedAll
SPECIFICATION Spec
INVARIANT OneOutput
PROPERTY Ends
CHECK_DEADLOCK FALSE
