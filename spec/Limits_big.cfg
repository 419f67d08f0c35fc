CONSTANTS
  A = 4
  B = 4
  Extra = 2
  How = "check"
SPECIFICATION Spec
INVARIANTS Faithful Rejects
PROPERTY Answers
CHECK_DEADLOCK FALSE
