CONSTANTS Parts = 2 Cap = 2 Keys = {"cancel", "refresh", "other"} MaxKeys = 2 Policy = "right"
SPECIFICATION Spec
INVARIANTS Restored Keyless Whole One
PROPERTIES Ends Heard Same
