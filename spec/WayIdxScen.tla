----------------------------- MODULE WayIdxScen -----------------------------
(* Every input file of WayIdx, printed as JSON. *)
EXTENDS WayIdx, Json
Emit == (phase = "build" /\ ways = <<>> /\ cells = <<>> /\ Len(blocks) = NBlocks)
            => PrintT("SCN " \o ToJson([blocks |-> blocks, align |-> align]))
Idle == UNCHANGED vars
=============================================================================
