INIT Init
NEXT Next
CONSTANTS
 Workers = {a, b}
 NRefresh = 3
 VersionFirst = FALSE
 LateVersion = FALSE
 NoLock = FALSE
 NoIncOnEnd = TRUE
INVARIANTS TypeOk Faithful 
CHECK_DEADLOCK FALSE
