CONSTANTS Design = "ok"
  Chars = {"a", "p", "e", "S", "N"}
  MaxLen = 5
  MaxW = 7
  Den = 5
SPECIFICATION Spec
INVARIANT Exact
INVARIANT Prefix
INVARIANT Covers
PROPERTY Grows
CHECK_DEADLOCK FALSE
