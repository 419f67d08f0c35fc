INIT Init
NEXT Next
CONSTANTS
 Workers = {a, b, c}
 NRefresh = 2
 VersionFirst = FALSE
 LateVersion = FALSE
 NoLock = TRUE
 NoIncOnEnd = FALSE
INVARIANTS TypeOk Faithful 
CHECK_DEADLOCK FALSE
