------------------------------- MODULE BufPool -------------------------------
(* A pool of byte buffers and its users.  A buffer in the pool may be handed to anyone, with
   whatever is in it, or be dropped; one which is too short is replaced by a new one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Users, Sizes, MaxBufs, Def0
VARIABLES pool, cap, held, content, def
vars == <<pool, cap, held, content, def>>
Bufs == 1..Len(cap)
None == <<>>
Init == pool = {} /\ cap = <<>> /\ held = [u \in Users |-> None] /\ content = <<>> /\ def = Def0
Max(a, b) == IF a > b THEN a ELSE b

\* held[u] = <<buffer, length, filled>>
Own(u, b, sz) == held' = [held EXCEPT ![u] = <<b, sz, FALSE>>]
Grow(n) == /\ Len(cap) < MaxBufs /\ cap' = Append(cap, n) /\ content' = Append(content, "zero")
Recycle(u, sz) == /\ held[u] = None /\ def' = Max(def, sz)
                  /\ \E b \in pool : /\ pool' = pool \ {b}
                                      /\ IF cap[b] >= sz THEN Own(u, b, sz) /\ UNCHANGED <<cap, content>>
                                         ELSE Grow(sz) /\ Own(u, Len(cap) + 1, sz)
Fresh(u, sz) == held[u] = None /\ def' = Max(def, sz) /\ Grow(def') /\ Own(u, Len(cap) + 1, sz) /\ UNCHANGED pool
Fill(u) == /\ held[u] # None /\ ~held[u][3]
           /\ held' = [held EXCEPT ![u][3] = TRUE] /\ content' = [content EXCEPT ![held[u][1]] = u] /\ UNCHANGED <<pool, cap, def>>
Put(u) == held[u] # None /\ pool' = pool \cup {held[u][1]} /\ held' = [held EXCEPT ![u] = None] /\ UNCHANGED <<cap, content, def>>
Drop == \E b \in pool : pool' = pool \ {b} /\ UNCHANGED <<cap, held, content, def>>
Foul == \E b \in pool : content' = [content EXCEPT ![b] = "foul"] /\ content[b] # "foul" /\ UNCHANGED <<pool, cap, held, def>>
Next == \/ \E u \in Users, sz \in Sizes : Recycle(u, sz) \/ Fresh(u, sz)
        \/ \E u \in Users : Fill(u) \/ Put(u)
        \/ Drop \/ Foul

Owns(u, b) == held[u] # None /\ held[u][1] = b
OneOwner == \A b \in Bufs : Cardinality({u \in Users : Owns(u, b)}) + (IF b \in pool THEN 1 ELSE 0) <= 1
LongEnough == \A u \in Users : held[u] # None => cap[held[u][1]] >= held[u][2]
Undisturbed == \A u \in Users : held[u] # None => (held[u][3] => content[held[u][1]] = u)
=============================================================================
