CONSTANTS B = 5 W = 2 CanCancel = FALSE
INIT SInit
NEXT SNext
INVARIANTS Emit OrderedExactlyOnce
CHECK_DEADLOCK FALSE
