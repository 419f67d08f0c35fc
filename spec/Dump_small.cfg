CONSTANTS
  MaxEls = 3
  MaxCount = 3
  MaxPass = 3
  How = "all"
SPECIFICATION Spec
INVARIANTS Complete Part
PROPERTY Ends
CHECK_DEADLOCK FALSE
