CONSTANTS B = 8 W = 4 CanCancel = TRUE
INIT SInit
NEXT SNext
INVARIANTS Emit OrderedExactlyOnce
CHECK_DEADLOCK FALSE
