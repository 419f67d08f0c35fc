CONSTANTS Design = "noflag"
  NIds = 2
  NPos = 2
  MaxRefs = 3
  MaxSteps = 5
SPECIFICATION Spec
INVARIANT Known
INVARIANT Listed
INVARIANT Whole
CHECK_DEADLOCK FALSE
