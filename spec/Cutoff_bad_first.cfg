CONSTANTS MaxEntries = 3
 MaxCount = 3
 MaxPasses = 3
 How = "first"
SPECIFICATION Spec
INVARIANTS NeverSilent Taken
CHECK_DEADLOCK FALSE
