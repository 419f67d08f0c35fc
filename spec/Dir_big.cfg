CONSTANTS
  MaxRuns = 3
  Sizes = {1, 3}
  Outs = {"a", "b"}
  MaxP = 4
  How = "ok"
SPECIFICATION Spec
INVARIANTS InputsKept OthersKept Clean
CHECK_DEADLOCK FALSE
