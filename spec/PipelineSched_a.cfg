CONSTANTS B = 3 W = 2 CanCancel = FALSE
INIT SInit
NEXT SNext
INVARIANTS Emit OrderedExactlyOnce
CHECK_DEADLOCK FALSE
