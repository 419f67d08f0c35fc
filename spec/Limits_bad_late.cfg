CONSTANTS
  A = 2
  B = 2
  Extra = 1
  How = "late"
SPECIFICATION Spec
INVARIANTS Faithful Rejects
PROPERTY Answers
CHECK_DEADLOCK FALSE
