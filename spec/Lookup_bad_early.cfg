CONSTANTS MaxId = 3
 Targets = {0, 2}
 Workers = 2
 Few = TRUE
 MaxLen = 2
 How = "early"
SPECIFICATION Spec
INVARIANTS Accounted AsAsked Below
CHECK_DEADLOCK FALSE
