CONSTANTS W = 6 B = 2
SPECIFICATION Spec
INVARIANTS Lossless NeverAnId TableAgrees
PROPERTY Moves
 CHECK_DEADLOCK FALSE
