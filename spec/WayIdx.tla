------------------------------- MODULE WayIdx -------------------------------
(* cmd/wayindex and internal/wayindex.  A way is an id and a sequence of location
   values (not 0).  Building appends blocks of ways in file order; a way's locations
   are stored, without consecutive repeats, as deltas ended by a 0, and padded to the
   alignment.  One cell stands for one byte; a delta takes Width(d) cells, of which all
   but the first hold Cont. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxWay, Locs, MaxLen, NBlocks, Aligns, MaxPasses

Cont == 1000
Abs(x) == IF x < 0 THEN -x ELSE x
Width(d) == IF Abs(d) > 2 THEN 2 ELSE 1
LocSeqs == UNION {[1..n -> Locs] : n \in 0..MaxLen}

VARIABLES blocks,    \* blocks still to come: sequences of <<id, locations>>
          align,     \* cells per unit of an offset
          ways,      \* id -> locations, the ways indexed so far
          entries,   \* sequence of [id, off]
          cells,
          phase
vars == <<blocks, align, ways, entries, cells, phase>>

RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) <= 1 THEN s
            ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))

Piece(d) == <<d>> \o [i \in 1..(Width(d)-1) |-> Cont]
RECURSIVE Deltas(_, _)
Deltas(s, last) == IF s = <<>> THEN <<0>> ELSE Piece(s[1] - last) \o Deltas(Tail(s), s[1])
\* the padding is never empty: align - Len % align
Pad(s) == s \o [i \in 1..(align - (Len(s) % align)) |-> 0]
\* compaction of repeats as the builder does it, against a start value of 0
RECURSIVE Compact(_, _)
Compact(s, last) == IF s = <<>> THEN <<>>
                    ELSE IF s[1] = last THEN Compact(Tail(s), last)
                    ELSE <<s[1]>> \o Compact(Tail(s), s[1])

\* the index of one block: entries relative to the block, and its cells
RECURSIVE BlockIx(_, _, _)
BlockIx(b, es, cs) ==
    IF b = <<>> THEN <<es, cs>>
    ELSE BlockIx(Tail(b), Append(es, [id |-> b[1][1], off |-> Len(cs) \div align]),
                 Pad(cs \o Deltas(Compact(b[1][2], 0), 0)))

\* ids 1..MaxWay are absent (0) or in a block, ascending
Files == {f \in [1..MaxWay -> 0..NBlocks] :
            \A i, j \in 1..MaxWay : (i < j /\ f[i] > 0 /\ f[j] > 0) => f[i] <= f[j]}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})

Init == /\ align \in Aligns
        /\ \E f \in Files : LET here == {i \in 1..MaxWay : f[i] > 0} IN
           \E c \in [here -> LocSeqs] :
             blocks = [b \in 1..NBlocks |-> LET a == Asc({i \in here : f[i] = b})
                                            IN [j \in 1..Len(a) |-> <<a[j], c[a[j]]>>]]
        /\ ways = <<>> /\ entries = <<>> /\ cells = <<>> /\ phase = "build"

AddBlock ==
    /\ phase = "build" /\ blocks # <<>>
    /\ LET r == BlockIx(Head(blocks), <<>>, <<>>)
           base == Len(cells) \div align
       IN /\ entries' = entries \o [j \in 1..Len(r[1]) |-> [id |-> r[1][j].id, off |-> r[1][j].off + base]]
          /\ cells' = cells \o r[2]
    /\ ways' = ways \o Head(blocks)
    /\ blocks' = Tail(blocks) /\ UNCHANGED <<align, phase>>
Finish == phase = "build" /\ blocks = <<>> /\ phase' = "done" /\ UNCHANGED <<blocks, align, ways, entries, cells>>
Next == AddBlock \/ Finish
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- queries
RECURSIVE Read(_, _)
Read(pos, last) ==      \* pos: 1-based cell
    LET d == cells[pos] IN
    IF d = 0 THEN <<>> ELSE <<last + d>> \o Read(pos + Width(d), last + d)

FirstAtLeast(from, target) ==
    LET S == {i \in from..(Len(entries)-1) : entries[i+1].off * align >= target}
    IN IF S = {} THEN Len(entries) ELSE CHOOSE i \in S : \A j \in S : i <= j
Pass(cur, cnt) ==
    LET lo == FirstAtLeast(0, (Len(cells) * cur) \div cnt)
        hi == FirstAtLeast(lo, (Len(cells) * (cur+1)) \div cnt)
    IN [lo |-> lo, hi |-> hi, top |-> IF hi = 0 THEN 0 ELSE entries[hi].id]

RECURSIVE Lower(_, _, _, _)
Lower(s, id, lo, hi) == IF lo >= hi THEN lo
    ELSE LET mid == (lo + hi) \div 2 IN
         IF id < s[mid+1].id THEN Lower(s, id, lo, mid)
         ELSE IF id = s[mid+1].id THEN mid ELSE Lower(s, id, mid + 1, hi)

Absent == <<"absent">>
Find(p, id, hint) ==
    LET s == SubSeq(entries, p.lo + 1, p.hi)
        n == Len(s)
        ok == hint < n
        at == Lower(s, id, IF ok /\ id > s[hint+1].id THEN hint ELSE 0, IF ok /\ id < s[hint+1].id THEN hint ELSE n)
        i == IF ok /\ s[hint+1].id = id THEN hint ELSE at
    IN IF id > p.top \/ i >= n THEN <<Absent, hint>>
       ELSE IF s[i+1].id # id THEN <<Absent, hint>>
       ELSE <<Read(s[i+1].off * align + 1, 0), i>>

\* ------------------------------------------------------------- properties
Done == phase = "done"
Ids == {ways[i][1] : i \in 1..Len(ways)}
LocsOf(id) == (CHOOSE i \in 1..Len(ways) : ways[i][1] = id)
Expected(id) == IF id \in Ids THEN Dedup(ways[LocsOf(id)][2]) ELSE Absent
Hints(p) == 0..(p.hi - p.lo + 1)

\* C06
LookupsExact == Done =>
    LET p == Pass(0, 1) IN \A id \in 0..(MaxWay+1), h \in Hints(p) : Find(p, id, h)[1] = Expected(id)
\* C07
PassesPartition == Done => \A n \in 1..MaxPasses :
    /\ Pass(0, n).lo = 0 /\ Pass(n-1, n).hi = Len(entries)
    /\ \A c \in 0..(n-2) : Pass(c, n).hi = Pass(c+1, n).lo
PassesExact == Done => \A n \in 1..MaxPasses : \A c \in 0..(n-1) :
    LET p == Pass(c, n)
        mine == {entries[i].id : i \in (p.lo+1)..p.hi}
    IN \A id \in 0..(MaxWay+1), h \in Hints(p) :
          Find(p, id, h)[1] = (IF id \in mine THEN Expected(id) ELSE Absent)
Aligned == Len(cells) % align = 0
WellFormed == \A i \in 1..(Len(entries)-1) : entries[i].id < entries[i+1].id /\ entries[i].off < entries[i+1].off
=============================================================================
