CONSTANTS MaxBlobs = 2 Workers = {1, 2} Payloads = {1}
SPECIFICATION Spec
INVARIANTS Prefix Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
