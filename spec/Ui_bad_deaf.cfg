CONSTANTS Parts = 1 Cap = 1 Keys = {"cancel", "other"} MaxKeys = 1 Policy = "deaf"
SPECIFICATION Spec
INVARIANTS Restored Keyless Whole One
PROPERTIES Ends Heard Same
