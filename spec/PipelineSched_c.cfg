CONSTANTS B = 3 W = 2 CanCancel = TRUE
INIT SInit
NEXT SNext
INVARIANTS Emit OrderedExactlyOnce
CHECK_DEADLOCK FALSE
