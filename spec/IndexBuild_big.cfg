SPECIFICATION Spec
CONSTANTS B = 9
 Chunk = 4
 Designs = {"ok"}
 Olds = {0, 1, 4, 9, 18, 19, 20, 30}
INVARIANTS NeverHalf Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
