CONSTANTS MaxBlobs = 2 Workers = {1} Payloads = {1, 2, 3, 4}
INIT Init
NEXT Stop
INVARIANT Emit
CHECK_DEADLOCK FALSE
