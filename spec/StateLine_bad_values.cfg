INIT Init
NEXT Next
CONSTANTS
 Line = "rewritenodes.worker"
 OpNames = {"waiting", "decoding", "working", "next", "sending"}
 NOps = 4
 NLooks = 1
 StateFirst = FALSE
 ValuesFirst = TRUE
INVARIANTS LineTrue Quiet
CHECK_DEADLOCK FALSE
