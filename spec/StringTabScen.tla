---------------------------- MODULE StringTabScen ----------------------------
EXTENDS StringTab, Json
Emit == closed => PrintT("SCN " \o ToJson(ops))
=============================================================================
