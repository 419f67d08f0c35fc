CONSTANTS Parts = 3 Cap = 2 Keys = {"cancel", "refresh", "other"} MaxKeys = 3 Policy = "right"
SPECIFICATION Spec
INVARIANTS Restored Keyless Whole One
PROPERTIES Ends Heard Same
