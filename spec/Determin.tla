------------------------------ MODULE Determin ------------------------------
(* Blocks are transformed by workers, in scratch buffers which are recycled with whatever is in
   them, and written in order.  Whoever does what when: the output is the same function of the
   input.  A buffer is a sequence of cells; a result of n cells occupies the first n. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Blocks, Workers, Need      \* Need[i]: cells of the result of block i
VARIABLES next, at, buf, pool, sent, out, fresh
vars == <<next, at, buf, pool, sent, out, fresh>>
Max == 2
Bufs == 1..Cardinality(Workers)
F(i, c) == 10 * i + c
Result(i) == [c \in 1..Need[i] |-> F(i, c)]
Idle == [st |-> "idle"]
Init == /\ next = 1 /\ at = [w \in Workers |-> Idle] /\ buf = [b \in Bufs |-> [c \in 1..Max |-> 0]]
        /\ pool = Bufs /\ sent = {} /\ out = <<>> /\ fresh = 0
Receive(w) == /\ at[w].st = "idle" /\ next <= Blocks /\ next' = next + 1
              /\ at' = [at EXCEPT ![w] = [st |-> "got", i |-> next]] /\ UNCHANGED <<buf, pool, sent, out, fresh>>
Take(w) == /\ at[w].st = "got"
           /\ \E b \in pool : /\ pool' = pool \ {b} /\ at' = [at EXCEPT ![w] = [st |-> "has", i |-> at[w].i, b |-> b, c |-> 0]]
           /\ UNCHANGED <<next, buf, sent, out, fresh>>
Compute(w) == /\ at[w].st = "has" /\ at[w].c < Need[at[w].i]
              /\ buf' = [buf EXCEPT ![at[w].b][at[w].c + 1] = F(at[w].i, at[w].c + 1)]
              /\ at' = [at EXCEPT ![w].c = @ + 1] /\ UNCHANGED <<next, pool, sent, out, fresh>>
\* the result is copied before the buffer goes back
Send(w) == /\ at[w].st = "has" /\ at[w].c = Need[at[w].i]
           /\ sent' = sent \cup {<<at[w].i, SubSeq(buf[at[w].b], 1, Need[at[w].i])>>}
           /\ at' = [at EXCEPT ![w] = [st |-> "sent", b |-> at[w].b]] /\ UNCHANGED <<next, buf, pool, out, fresh>>
Give(w) == at[w].st = "sent" /\ pool' = pool \cup {at[w].b} /\ at' = [at EXCEPT ![w] = Idle] /\ UNCHANGED <<next, buf, sent, out, fresh>>
\* something else happens to a buffer nobody owns
Soil == fresh < 2 /\ fresh' = fresh + 1 /\ \E b \in pool : buf' = [buf EXCEPT ![b] = [c \in 1..Max |-> 99]] /\ UNCHANGED <<next, at, pool, sent, out>>
Write == \E s \in sent : s[1] = Len(out) + 1 /\ out' = Append(out, s[2]) /\ sent' = sent \ {s} /\ UNCHANGED <<next, at, buf, pool, fresh>>
Next == Soil \/ Write \/ \E w \in Workers : Receive(w) \/ Take(w) \/ Compute(w) \/ Send(w) \/ Give(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneOutput == \A i \in 1..Len(out) : out[i] = Result(i)
Ends == <>[](Len(out) = Blocks)
NeedAll == <<2, 0, 1, 2>>
=============================================================================
