CONSTANTS
  N = 2
  D = 2
  Bound = "len"
  Skip = "read"
  Inflate = "fill"
SPECIFICATION Spec
INVARIANTS Contained Separate Inflated
PROPERTY Ends
CHECK_DEADLOCK FALSE
