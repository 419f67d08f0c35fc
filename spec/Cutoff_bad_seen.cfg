CONSTANTS MaxEntries = 3
 MaxCount = 3
 MaxPasses = 3
 How = "seen"
SPECIFICATION Spec
INVARIANTS NeverSilent Taken
CHECK_DEADLOCK FALSE
