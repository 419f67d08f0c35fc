---------------------------- MODULE MortonTable ----------------------------
EXTENDS Words, TLC, Json
VARIABLE x
Init == x = 0
Idle == UNCHANGED x
Emit == PrintT("TAB " \o ToJson([b \in 1..256 |-> SpreadTable[b-1]])) /\ PrintT("TAB " \o ToJson([b \in 1..256 |-> Top(b-1)]))
=============================================================================
