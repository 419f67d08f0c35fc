------------------------------- MODULE DirScen -------------------------------
(* Histories of up to N runs: the output, the size of the input, and whether the run is let finish, ended early or
   late; the last one is let finish. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N
VARIABLES hist
Init == hist = <<>>
Next == Len(hist) < N /\ \E o \in {"a", "b"}, s \in {"none", "small", "big"}, w \in {"ok", "early", "late"} : hist' = Append(hist, <<o, s, w>>)
Emit == (Len(hist) > 0 /\ hist[Len(hist)][3] = "ok") => PrintT("SCN " \o ToJson(hist))
=============================================================================
