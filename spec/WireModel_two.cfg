CONSTANTS Vals <- FewEdges Forms <- PackedForms MaxLen = 1 MaxItems = 2
SPECIFICATION Spec
INVARIANTS RoundTrip Consumed Bytes
CHECK_DEADLOCK FALSE
