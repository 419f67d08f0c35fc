CONSTANTS Chars = {"a", "p", "e", "S"}
  MaxLen = 4
  MaxW = 6
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
