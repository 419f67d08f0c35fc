CONSTANTS
  MaxEls = 5
  MaxCount = 3
  MaxPass = 5
  How = "all"
SPECIFICATION Spec
INVARIANTS Complete Part
PROPERTY Ends
CHECK_DEADLOCK FALSE
