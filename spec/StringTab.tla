------------------------------ MODULE StringTab ------------------------------
(* The builder of a string table.  Strings are numbers in byte order, 0 is "".
   uses: how often each string was added.  Once closed, the table is <<0>> followed by the
   strings which were added, those used most first, equal ones in byte order. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Strs, Maps, MaxOps
VARIABLES uses, ops, closed, table
vars == <<uses, ops, closed, table>>

More(u, s) == IF s = 0 THEN u ELSE IF s \in DOMAIN u THEN [u EXCEPT ![s] = @ + 1] ELSE u @@ (s :> 1)
MoreAll(u, ss) == FoldLeft(More, u, ss)
Pairs(m) == FoldLeft(LAMBDA acc, p : acc \o <<p[1], p[2]>>, <<>>, m)
Before(u, a, b) == u[a] > u[b] \/ (u[a] = u[b] /\ a < b)
TableOf(u) == <<0>> \o SetToSortSeq(DOMAIN u, LAMBDA a, b : Before(u, a, b))
\* the index of a string of the table
IndexIn(t, s) == CHOOSE i \in 0..(Len(t) - 1) : t[i + 1] = s

Empty == [s \in {} |-> 0]
Init == uses = Empty /\ ops = <<>> /\ closed = FALSE /\ table = <<>>
Add(s) == ~closed /\ Len(ops) < MaxOps /\ uses' = More(uses, s) /\ ops' = Append(ops, <<s>>) /\ UNCHANGED <<closed, table>>
AddMap(m) == ~closed /\ Len(ops) < MaxOps /\ uses' = MoreAll(uses, Pairs(m)) /\ ops' = Append(ops, <<0, m>>) /\ UNCHANGED <<closed, table>>
Close == ~closed /\ closed' = TRUE /\ table' = TableOf(uses) /\ UNCHANGED <<uses, ops>>
Next == (\E s \in Strs : Add(s)) \/ (\E m \in Maps : AddMap(m)) \/ Close

Added == UNION {IF Len(ops[i]) = 1 THEN {ops[i][1]} ELSE ToSet(Pairs(ops[i][2])) : i \in DOMAIN ops}
EmptyFirst == closed => table[1] = 0
Once == closed => \A i, j \in DOMAIN table : table[i] = table[j] => i = j
Complete == closed => ToSet(table) = Added \cup {0}
Resolves == closed => \A s \in Added : table[IndexIn(table, s) + 1] = s
Ordered == closed => \A i, j \in 2..Len(table) : i < j => uses[table[i]] >= uses[table[j]]
\* what was added in another order gives the same table
Reversed == FoldLeft(LAMBDA u, o : IF Len(o) = 1 THEN More(u, o[1]) ELSE MoreAll(u, Reverse(Pairs(o[2]))), Empty, Reverse(ops))
OrderFree == closed => table = TableOf(Reversed)

SomeMaps == {<<>>, <<<<1, 1>>>>, <<<<1, 2>>, <<2, 3>>>>, <<<<3, 0>>>>}
=============================================================================
