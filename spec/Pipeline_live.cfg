CONSTANTS B = 3 W = 2 CanCancel = TRUE
SPECIFICATION FairSpec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
