INIT ScenInit
NEXT ScenNext
CONSTANTS
 Workers = {"a", "b"}
 NRefresh = 2
 MaxPre = 2
 VersionFirst = FALSE
 LateVersion = FALSE
 NoLock = FALSE
 NoIncOnEnd = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
