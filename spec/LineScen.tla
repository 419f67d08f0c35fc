------------------------------- MODULE LineScen -------------------------------
(* All interleavings of NW steps of a worker with NR steps of the display. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS NW, NR
VARIABLES hist, w, r
Init == hist = <<>> /\ w = 0 /\ r = 0
Next == \/ w < NW /\ w' = w + 1 /\ hist' = Append(hist, "w") /\ UNCHANGED r
        \/ r < NR /\ r' = r + 1 /\ hist' = Append(hist, "r") /\ UNCHANGED w
Emit == (w = NW /\ r = NR) => PrintT("SCN " \o ToJson(hist))
=============================================================================
