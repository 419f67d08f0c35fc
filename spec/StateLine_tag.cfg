INIT Init
NEXT Next
CONSTANTS
 Line = "tagfilter.worker"
 OpNames = {"waiting", "decoding", "keep", "drop", "sending"}
 NOps = 3
 NLooks = 2
 StateFirst = FALSE
 ValuesFirst = FALSE
INVARIANTS LineTrue Quiet
CHECK_DEADLOCK FALSE
