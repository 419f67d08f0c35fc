CONSTANTS
  MaxEls = 3
  MaxCount = 2
  MaxPass = 2
  How = "rel"
SPECIFICATION Spec
INVARIANTS Complete Part
PROPERTY Ends
CHECK_DEADLOCK FALSE
