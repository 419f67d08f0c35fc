CONSTANTS Design = "ok"
  B = 4
  W = 3
  Empty = {}
INIT SInit
NEXT SNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
