CONSTANTS MaxId = 3
 Targets = {0, 2}
 Workers = 2
 Few = TRUE
 MaxLen = 2
 How = "all"
SPECIFICATION Spec
INVARIANTS Accounted AsAsked Below
PROPERTY Ends
CHECK_DEADLOCK FALSE
