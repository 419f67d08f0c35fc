CONSTANTS
  N = 4
  D = 3
  Bound = "len"
  Skip = "read"
  Inflate = "all"
SPECIFICATION Spec
INVARIANTS Contained Separate Inflated
PROPERTY Ends
CHECK_DEADLOCK FALSE
