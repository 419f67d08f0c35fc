CONSTANTS Parts = 2 Cap = 1 Keys = {"other"} MaxKeys = 1 Policy = "drop"
SPECIFICATION Stuck
INVARIANTS Restored
PROPERTIES Still
