CONSTANTS
  N = 4
  D = 2
  Bound = "cap"
  Skip = "read"
  Inflate = "all"
SPECIFICATION Spec
INVARIANTS Contained Separate Inflated
PROPERTY Ends
CHECK_DEADLOCK FALSE
