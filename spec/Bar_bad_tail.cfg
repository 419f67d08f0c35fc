CONSTANTS Design = "tail"
  Chars = {"a", "p", "e", "S", "N"}
  MaxLen = 3
  MaxW = 4
  Den = 4
SPECIFICATION Spec
INVARIANT Exact
INVARIANT Prefix
INVARIANT Covers
PROPERTY Grows
CHECK_DEADLOCK FALSE
