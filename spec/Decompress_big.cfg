CONSTANTS MaxBlobs = 3 Workers = {1, 2, 3} Payloads = {1}
SPECIFICATION Spec
INVARIANTS Prefix Complete
CHECK_DEADLOCK FALSE
