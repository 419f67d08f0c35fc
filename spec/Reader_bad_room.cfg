CONSTANTS
  N = 2
  D = 2
  Bound = "len"
  Skip = "read"
  Inflate = "room"
SPECIFICATION Spec
INVARIANTS Contained Separate Inflated
PROPERTY Ends
CHECK_DEADLOCK FALSE
