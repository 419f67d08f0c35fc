CONSTANTS MaxEntries = 3
 MaxCount = 3
 MaxPasses = 3
 How = "entry"
SPECIFICATION Spec
INVARIANTS NeverSilent Taken
CHECK_DEADLOCK FALSE
