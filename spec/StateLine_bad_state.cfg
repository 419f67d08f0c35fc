INIT Init
NEXT Next
CONSTANTS
 Line = "rewritenodes.worker"
 OpNames = {"waiting", "decoding", "working", "next", "sending"}
 NOps = 4
 NLooks = 1
 StateFirst = TRUE
 ValuesFirst = FALSE
INVARIANTS LineTrue Quiet
CHECK_DEADLOCK FALSE
