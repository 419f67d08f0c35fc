CONSTANTS Vals <- Edges Forms <- OneForms MaxLen = 1 MaxItems = 1
SPECIFICATION Spec
INVARIANTS RoundTrip Consumed Bytes
CHECK_DEADLOCK FALSE
