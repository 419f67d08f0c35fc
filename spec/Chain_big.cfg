CONSTANTS Design = "ok"
  NIds = 2
  NPos = 2
  MaxRefs = 3
  MaxSteps = 6
SPECIFICATION Spec
INVARIANT Known
INVARIANT Listed
INVARIANT Whole
CHECK_DEADLOCK FALSE
