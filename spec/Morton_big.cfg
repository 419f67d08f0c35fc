CONSTANTS W = 8 B = 4
SPECIFICATION Spec
INVARIANTS Lossless NeverAnId TableAgrees
PROPERTY Moves
 CHECK_DEADLOCK FALSE
