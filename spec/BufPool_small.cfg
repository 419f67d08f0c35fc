CONSTANTS Users = {u1, u2} Sizes = {0, 2, 3} MaxBufs = 3 Def0 = 2
INIT Init
NEXT Next
INVARIANTS OneOwner LongEnough Undisturbed
CHECK_DEADLOCK FALSE
