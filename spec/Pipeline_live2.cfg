CONSTANTS B = 5 W = 3 CanCancel = TRUE
SPECIFICATION FairSpec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
