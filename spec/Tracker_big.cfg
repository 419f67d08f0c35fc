INIT Init
NEXT Next
CONSTANTS
 Workers = {a, b, c}
 NRefresh = 4
 VersionFirst = FALSE
 LateVersion = FALSE
 NoLock = FALSE
 NoIncOnEnd = FALSE
INVARIANTS TypeOk Faithful ListOk
CHECK_DEADLOCK FALSE
