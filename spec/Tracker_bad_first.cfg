INIT Init
NEXT Next
CONSTANTS
 Workers = {a, b}
 NRefresh = 3
 VersionFirst = TRUE
 LateVersion = FALSE
 NoLock = FALSE
 NoIncOnEnd = FALSE
INVARIANTS TypeOk Faithful 
CHECK_DEADLOCK FALSE
