CONSTANTS Keys <- KeysA MaxEntities = 3 MaxBlocks = 1 MaxTags = 2
SPECIFICATION Spec
INVARIANTS WaysAndRelationsKept NodesExact Idempotent DroppedOnlyEmpty
CHECK_DEADLOCK FALSE
