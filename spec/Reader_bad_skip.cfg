CONSTANTS
  N = 3
  D = 2
  Bound = "len"
  Skip = "jump"
  Inflate = "all"
SPECIFICATION Spec
INVARIANTS Contained Separate Inflated
PROPERTY Ends
CHECK_DEADLOCK FALSE
