----------------------------- MODULE RelIdxScen -----------------------------
EXTENDS RelIdx, Json
Emit == phase = "init" => PrintT("SCN " \o ToJson([rels |-> rels, index |-> index, cuts |-> cuts]))
Idle == UNCHANGED vars
=============================================================================
