SPECIFICATION Spec
CONSTANTS B = 3
 Chunk = 2
 Designs = {"torn"}
 Olds = {0, 1, 4, 9}
INVARIANTS NeverHalf Whole

CHECK_DEADLOCK FALSE
