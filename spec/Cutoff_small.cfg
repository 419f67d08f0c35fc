CONSTANTS MaxEntries = 3
 MaxCount = 3
 MaxPasses = 3
 How = "all"
SPECIFICATION Spec
INVARIANTS NeverSilent Taken
PROPERTY Ends
CHECK_DEADLOCK FALSE
