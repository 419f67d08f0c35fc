SPECIFICATION Spec
CONSTANTS B = 3
 Chunk = 2
 Designs = {"ok"}
 Olds = {0, 1, 4, 9}
INVARIANTS NeverHalf Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
