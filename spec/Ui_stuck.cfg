CONSTANTS Parts = 2 Cap = 2 Keys = {"cancel", "refresh", "other"} MaxKeys = 1 Policy = "right"
SPECIFICATION Stuck
INVARIANTS Restored
PROPERTIES Still
