CONSTANTS MaxBlobs = 2 Workers = {1, 2} Payloads = {1, 2}
SPECIFICATION Spec
INVARIANTS Prefix Complete
CHECK_DEADLOCK FALSE
