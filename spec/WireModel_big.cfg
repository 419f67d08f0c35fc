CONSTANTS Vals <- Edges Forms <- PackedForms MaxLen = 2 MaxItems = 1
SPECIFICATION Spec
INVARIANTS RoundTrip Consumed Bytes
CHECK_DEADLOCK FALSE
