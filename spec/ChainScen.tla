------------------------------- MODULE ChainScen -------------------------------
(* Workflows: sequences of tool runs ending in relindex in which every product is used.
   A command is [op, in, x]: input .osm.pbf (0 the original, else the command which made it)
   and the index it uses (the command which made it). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps
VARIABLES cmds, used
Init == cmds = <<>> /\ used = {}
Made(op) == {i \in DOMAIN cmds : cmds[i].op \in op}
Pbfs == {0} \cup Made({"tagfilter", "decompress", "rewritenodes"})
Unused == DOMAIN cmds \ used
Done == cmds # <<>> /\ cmds[Len(cmds)].op = "relindex"
Add(op, i, x) == /\ cmds' = Append(cmds, [op |-> op, in |-> i, x |-> x])
                 /\ used' = used \cup ({i, x} \ {0})
Next == /\ ~Done /\ Len(cmds) < MaxSteps
        /\ \/ \E op \in {"tagfilter", "decompress", "nodeindex"} : \E i \in Pbfs : Add(op, i, 0)
           \/ \E i \in Pbfs : \E x \in Made({"nodeindex"}) : Add("rewritenodes", i, x)
           \/ \E i \in Made({"tagfilter", "decompress", "rewritenodes"}) : Add("wayindex", i, 0)
           \/ \E i \in Pbfs : \E x \in Made({"wayindex"}) : Add("relindex", i, x)
\* at most two products can find a use in one step, and the last one needs one
Useful == Cardinality(Unused) <= 1 + (MaxSteps - Len(cmds))
Emit == (Done /\ Unused = {Len(cmds)} /\ Made({"rewritenodes"}) # {}) => PrintT("SCN " \o ToJson(cmds))
=============================================================================
