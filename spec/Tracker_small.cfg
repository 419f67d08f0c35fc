INIT Init
NEXT Next
CONSTANTS
 Workers = {a, b}
 NRefresh = 3
 VersionFirst = FALSE
 LateVersion = FALSE
 NoLock = FALSE
 NoIncOnEnd = FALSE
INVARIANTS TypeOk Faithful ListOk
CHECK_DEADLOCK FALSE
