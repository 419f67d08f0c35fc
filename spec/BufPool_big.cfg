CONSTANTS Users = {u1, u2, u3} Sizes = {1, 3} MaxBufs = 4 Def0 = 2
INIT Init
NEXT Next
INVARIANTS OneOwner LongEnough Undisturbed
CHECK_DEADLOCK FALSE
