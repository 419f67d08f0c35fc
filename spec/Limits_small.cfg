CONSTANTS
  A = 3
  B = 2
  Extra = 1
  How = "check"
SPECIFICATION Spec
INVARIANTS Faithful Rejects
PROPERTY Answers
CHECK_DEADLOCK FALSE
