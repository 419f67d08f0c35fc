CONSTANTS
  MaxRuns = 2
  Sizes = {1, 2}
  Outs = {"a", "b"}
  MaxP = 3
  How = "tail"
SPECIFICATION Spec
INVARIANTS InputsKept OthersKept Clean
CHECK_DEADLOCK FALSE
