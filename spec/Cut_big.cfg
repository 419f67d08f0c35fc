CONSTANTS Design = "ok"
  B = 6
  W = 3
  Empty = {1, 4}
SPECIFICATION Spec
INVARIANT Prefix
INVARIANT Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
