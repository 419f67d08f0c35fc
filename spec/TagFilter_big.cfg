CONSTANTS Keys <- KeysB MaxEntities = 2 MaxBlocks = 2 MaxTags = 3
SPECIFICATION Spec
INVARIANTS WaysAndRelationsKept NodesExact Idempotent DroppedOnlyEmpty
PROPERTY Ends
CHECK_DEADLOCK FALSE
