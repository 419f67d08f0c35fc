INIT Init
NEXT Next
CONSTANTS
 Workers = {a, b}
 NRefresh = 3
 VersionFirst = FALSE
 LateVersion = TRUE
 NoLock = FALSE
 NoIncOnEnd = FALSE
INVARIANTS TypeOk Faithful 
CHECK_DEADLOCK FALSE
