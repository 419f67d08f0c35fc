------------------------------- MODULE BarScen -------------------------------
(* All texts over some characters and all widths; every progress is tried on each. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Chars, MaxLen, MaxW
VARIABLES text, width
Init == /\ text \in UNION {[1..k -> Chars] : k \in 0..MaxLen} /\ width \in 0..MaxW
Next == UNCHANGED <<text, width>>
Emit == PrintT("SCN " \o ToJson([text |-> text, width |-> width]))
=============================================================================
