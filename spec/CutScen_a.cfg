CONSTANTS Design = "ok"
  B = 3
  W = 2
  Empty = {}
INIT SInit
NEXT SNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
