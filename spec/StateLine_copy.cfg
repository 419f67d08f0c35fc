INIT Init
NEXT Next
CONSTANTS
 Line = "nodeindex.writer"
 OpNames = {"waiting", "index", "locations", "copying", "advance", "finalizing"}
 NOps = 3
 NLooks = 2
 StateFirst = FALSE
 ValuesFirst = FALSE
INVARIANTS LineTrue Quiet
CHECK_DEADLOCK FALSE
