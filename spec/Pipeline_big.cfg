CONSTANTS B = 6 W = 4 CanCancel = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK OrderedExactlyOnce Conserved MappedWhileInUse DoneMeansDone NoStrandedBlocks NoSendOnClosed
PROPERTY Refines
CHECK_DEADLOCK FALSE
