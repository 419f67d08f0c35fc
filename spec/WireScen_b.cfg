CONSTANTS Vals <- Edges Forms <- OneForms MaxLen = 1 MaxItems = 1
INIT Init
NEXT Write
INVARIANT Emit
CHECK_DEADLOCK FALSE
