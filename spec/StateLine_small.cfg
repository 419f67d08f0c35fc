INIT Init
NEXT Next
CONSTANTS
 Line = "rewritenodes.worker"
 OpNames = {"waiting", "decoding", "working", "next", "sending"}
 NOps = 3
 NLooks = 2
 StateFirst = FALSE
 ValuesFirst = FALSE
INVARIANTS LineTrue Quiet
CHECK_DEADLOCK FALSE
