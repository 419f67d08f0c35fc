CONSTANTS MaxId = 3
 Targets = {0, 1, 2, 3}
 Workers = 2
 Few = FALSE
 MaxLen = 2
 How = "all"
SPECIFICATION Spec
INVARIANTS Accounted AsAsked Below
CHECK_DEADLOCK FALSE
