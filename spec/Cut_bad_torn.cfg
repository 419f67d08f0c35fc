CONSTANTS Design = "torn"
  B = 3
  W = 2
  Empty = {1}
SPECIFICATION Spec
INVARIANT Prefix
INVARIANT Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
