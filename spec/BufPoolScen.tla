----------------------------- MODULE BufPoolScen -----------------------------
(* Histories of gets and puts by users, for replay on the real pool. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Users, Sizes, MaxOps
VARIABLES h, has
Init == h = <<>> /\ has = {}
Get(u, n) == u \notin has /\ has' = has \cup {u} /\ h' = Append(h, <<"get", u, n>>)
Put(u) == u \in has /\ has' = has \ {u} /\ h' = Append(h, <<"put", u>>)
Foreign == (Len(h) > 0 => h[Len(h)][1] # "foreign") /\ h' = Append(h, <<"foreign", 1, 3>>) /\ UNCHANGED has
Next == Len(h) < MaxOps /\ ((\E u \in Users, n \in Sizes : Get(u, n)) \/ (\E u \in Users : Put(u)) \/ Foreign)
Emit == Len(h) = MaxOps => PrintT("SCN " \o ToJson(h))
=============================================================================
