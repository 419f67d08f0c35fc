------------------------------- MODULE UiScen -------------------------------
(* Sessions: a tool with a display on a terminal, which stands still in one of its parts or
   not at all, and what is done at the terminal meanwhile. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps
Tools == {"decompress", "tagfilter", "nodeindex", "wayindex", "relindex", "rewritenodes"}
Steps == {"other", "sync", "dump", "cancel", "big", "small"}
VARIABLES s
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE LET p == Seqs(n - 1) IN p \cup {Append(q, x) : q \in {r \in p : Len(r) = n - 1}, x \in Steps}
Sessions ==
  {x \in [tool : Tools, parts : 1..3, refresh : {"off", "tiny", "fast", "never"}, size : {"big", "small", "one"}, hold : 0..3, steps : Seqs(MaxSteps), w : {1, 3}] :
     /\ x.tool # "rewritenodes" => x.parts = 1
     /\ x.hold <= x.parts
     /\ x.refresh \in {"off", "tiny"} => x.steps = <<>> /\ x.hold = 0
     /\ x.refresh = "never" => Len(x.steps) <= 1 /\ x.size = "big"
     /\ x.size = "one" => Len(x.steps) <= 1
     /\ x.hold = 0 => Len(x.steps) <= 1
     \* cancelling between passes is open
     /\ x.parts > 1 => TRUE = (\A j \in 1..Len(x.steps) : x.steps[j] # "cancel")
     /\ TRUE = (\A j \in 1..Len(x.steps) : x.steps[j] = "cancel" => j = Len(x.steps))}
Init == s \in Sessions
Next == FALSE /\ UNCHANGED s
Emit == PrintT("SCN " \o ToJson(s))
=============================================================================
