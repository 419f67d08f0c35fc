---------------------------- MODULE NodeIdxScen ----------------------------
(* Every input file of NodeIdx, printed once its index is complete, together with
   the index the specification builds for it. *)
EXTENDS NodeIdx, Json
Emit == Done => PrintT("SCN " \o ToJson([ids |-> Ascending(nodes), elems |-> elems, locs |-> locs]))
EmitFile == (phase = "build" /\ nodes = {} /\ elems = <<>> /\ Len(blocks) = NBlocks) => PrintT("SCN " \o ToJson([blocks |-> blocks]))
=============================================================================
