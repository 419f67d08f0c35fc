CONSTANTS B = 4 W = 3 CanCancel = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK OrderedExactlyOnce Conserved MappedWhileInUse DoneMeansDone NoStrandedBlocks NoSendOnClosed
PROPERTY Refines
CHECK_DEADLOCK FALSE
