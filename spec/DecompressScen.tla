--------------------------- MODULE DecompressScen ---------------------------
EXTENDS Decompress, Json
Emit == PrintT("SCN " \o ToJson(file))
Stop == UNCHANGED vars
=============================================================================
