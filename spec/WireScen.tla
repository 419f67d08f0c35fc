------------------------------ MODULE WireScen ------------------------------
EXTENDS WireModel, Json
Emit == items # <<>> => PrintT("SCN " \o ToJson([f |-> items[1][1], vs |-> items[1][2], b |-> buf]))
=============================================================================
