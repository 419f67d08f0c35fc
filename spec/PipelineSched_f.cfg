CONSTANTS B = 4 W = 3 CanCancel = TRUE
INIT SInit
NEXT SNext
INVARIANTS Emit OrderedExactlyOnce
CHECK_DEADLOCK FALSE
