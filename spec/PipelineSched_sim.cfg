CONSTANTS B = 8 W = 4 CanCancel = FALSE
INIT SInit
NEXT SNext
INVARIANTS Emit OrderedExactlyOnce
CHECK_DEADLOCK FALSE
