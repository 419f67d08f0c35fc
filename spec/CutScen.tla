------------------------------ MODULE CutScen ------------------------------
(* Every order of what the workers do before a cancel, for the gated driver. *)
EXTENDS Cut, TLC, Json
VARIABLE h
SInit == Init /\ h = <<>>
Log(op, i) == h' = Append(h, [op |-> op, i |-> i])
SNext == /\ ~cancelled
         /\ \/ Take /\ Log("take", at)
            \/ \E i \in Blocks : (Feed(i) /\ Log("feed", i)) \/ (Send(i) /\ Log("send", i))
            \/ Cancel /\ Log("cancel", 0)
Emit == cancelled => PrintT("SCN " \o ToJson([b |-> B, w |-> W, steps |-> h]))
=============================================================================
