CONSTANTS Vals <- FewEdges Forms <- PackedForms MaxLen = 2 MaxItems = 1
INIT Init
NEXT Write
INVARIANT Emit
CHECK_DEADLOCK FALSE
