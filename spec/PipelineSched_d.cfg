CONSTANTS B = 4 W = 3 CanCancel = FALSE
INIT SInit
NEXT SNext
INVARIANTS Emit OrderedExactlyOnce
CHECK_DEADLOCK FALSE
