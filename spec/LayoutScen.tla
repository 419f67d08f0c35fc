---------------------------- MODULE LayoutScen ----------------------------
(* Every block of Layout, as JSON. *)
EXTENDS Layout, Json
Emit1 == phase = "frame" => PrintT("SCN " \o ToJson([groups |-> block, frame |-> frame, late |-> late]))
Stop == phase = "frame"
=============================================================================
