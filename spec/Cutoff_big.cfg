CONSTANTS MaxEntries = 4
 MaxCount = 4
 MaxPasses = 5
 How = "all"
SPECIFICATION Spec
INVARIANTS NeverSilent Taken
PROPERTY Ends
CHECK_DEADLOCK FALSE
