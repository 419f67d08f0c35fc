CONSTANTS Chars = {"a", "p", "e", "S", "N"}
  MaxLen = 5
  MaxW = 8
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
