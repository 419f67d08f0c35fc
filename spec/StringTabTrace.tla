--------------------------- MODULE StringTabTrace ---------------------------
(* Validates the real builder and the tables of the blocks the real code writes.
   new / add s / map m / close table / index s i (i = -1: refused) / kv m ks vs / lin m ids
   are operations of a builder.
   block entities table refs: a block written from entities, each <<kind, tags, roles>>;
   table as decoded from the bytes; refs, one per entity: <<kind, <<<<key index, value
   index>>...>>, role indexes>>. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, uses, closed, table
ST == INSTANCE StringTab WITH Strs <- {}, Maps <- {}, MaxOps <- 0, ops <- <<>>
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1 /\ uses = ST!Empty /\ closed = FALSE /\ table = <<>>
Same == UNCHANGED <<uses, closed, table>>
New == Ev("new") /\ uses' = ST!Empty /\ closed' = FALSE /\ table' = <<>>
Add == Ev("add") /\ ~closed /\ uses' = ST!More(uses, E.s) /\ UNCHANGED <<closed, table>>
AddMap == Ev("map") /\ ~closed /\ uses' = ST!MoreAll(uses, ST!Pairs(E.m)) /\ UNCHANGED <<closed, table>>
Close == Ev("close") /\ ~closed /\ E.table = ST!TableOf(uses) /\ closed' = TRUE /\ table' = E.table /\ UNCHANGED uses
\* add s n: the same string n times
Many == Ev("many") /\ ~closed /\ E.s # 0 /\ uses' = (IF E.s \in DOMAIN uses THEN [uses EXCEPT ![E.s] = @ + E.n] ELSE uses @@ (E.s :> E.n)) /\ UNCHANGED <<closed, table>>
\* range n table: a new builder, the strings 1..n once each in some order, closed
Whole == Ev("range") /\ table' = E.table /\ TRUE = (Len(E.table) = E.n + 1 /\ \A i \in 1..(E.n + 1) : E.table[i] = i - 1)
         /\ closed' = TRUE /\ uses' = ST!Empty
At(t, i, s) == i >= 0 /\ i < Len(t) /\ t[i + 1] = s
Index == Ev("index") /\ closed /\ (IF E.i = -1 THEN ~Contains(table, E.s) ELSE At(table, E.i, E.s)) /\ Same
\* pairs of indexes for the pairs of a map, in any order
InT(t, i) == i >= 0 /\ i < Len(t)
Means(t, is, m) == /\ Len(is) = Len(m)
                   /\ \A i \in 1..Len(is) : InT(t, is[i][1]) /\ InT(t, is[i][2])
                   /\ {<<t[is[i][1] + 1], t[is[i][2] + 1]>> : i \in 1..Len(is)} = ToSet(m)
KV == Ev("kv") /\ closed /\ Len(E.ks) = Len(E.vs) /\ Means(table, [i \in 1..Len(E.ks) |-> <<E.ks[i], E.vs[i]>>], E.m) /\ Same
Lin == /\ Ev("lin") /\ closed /\ Len(E.ids) % 2 = 0 /\ Means(table, [i \in 1..(Len(E.ids) \div 2) |-> <<E.ids[2*i - 1], E.ids[2*i]>>], E.m)
       /\ Same
UsesOf(es) == FoldLeft(LAMBDA u, e : ST!MoreAll(ST!MoreAll(u, ST!Pairs(e[2])), e[3]), ST!Empty, es)
EntityOK(t, e, r) == /\ r[1] = e[1] /\ Means(t, r[2], e[2])
                     /\ Len(r[3]) = Len(e[3]) /\ \A i \in 1..Len(e[3]) : At(t, r[3][i], e[3][i])
Block == /\ Ev("block") /\ Same
         /\ \E t \in {E.table} : \E es \in {E.entities} : \E rs \in {E.refs} :
              /\ t = ST!TableOf(UsesOf(es))
              /\ Len(rs) = Len(es)
              /\ TRUE = (\A i \in 1..Len(es) : EntityOK(t, es[i], rs[i]))
\* a table written and read
Codec == Ev("codec") /\ E.out = E.in /\ E.decoded = E.in /\ Same
Next == New \/ Many \/ Whole \/ Add \/ AddMap \/ Close \/ Index \/ KV \/ Lin \/ Block \/ Codec
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
