------------------------------ MODULE NodeIdx ------------------------------
(* cmd/nodeindex and internal/nodeindex.  The file is a sequence of blocks, each a
   sequence of strictly increasing node ids.  Building appends one block at a time
   (the pipeline delivers them in file order, see Pipeline).  An index is a
   sequence of elements [first, count, off] and a sequence of locations; here the
   location of node n is n itself, and 0 is the filler for an absent node. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxId, NBlocks, MaxPasses,
          MaxFill    \* how many absent ids an element may span between two nodes

Ids == 0..MaxId

VARIABLES blocks,   \* blocks which are still to be indexed
          nodes,    \* ids indexed so far
          elems, locs,
          phase     \* "build" | "done"

vars == <<blocks, nodes, elems, locs, phase>>

\* ------------------------------------------------------------- input files
\* assign each id to "no block" (0) or to one of the blocks, in ascending order
Files == {f \in [Ids -> 0..NBlocks] :
            \A i, j \in Ids : (i < j /\ f[i] > 0 /\ f[j] > 0) => f[i] <= f[j]}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o Ascending(S \ {m})
BlocksOf(f) == [b \in 1..NBlocks |-> Ascending({i \in Ids : f[i] = b})]

\* ------------------------------------------------------------------- build
\* the runs of one block: a gap of at most MaxFill absent ids is filled
RECURSIVE Runs(_, _, _)
Runs(s, cur, acc) ==
    IF s = <<>> THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
    ELSE IF cur = <<>> THEN Runs(Tail(s), <<Head(s)>>, acc)
    ELSE LET last == cur[Len(cur)] IN
         IF Head(s) - last <= MaxFill + 1
         THEN Runs(Tail(s), Append(cur, Head(s)), acc)
         ELSE Runs(Tail(s), <<Head(s)>>, Append(acc, cur))

LocsOf(run) == LET S == {run[i] : i \in 1..Len(run)}
                   first == run[1]
                   n == run[Len(run)] - first + 1
               IN [k \in 1..n |-> IF (first + k - 1) \in S THEN first + k - 1 + 1000 ELSE 0]

RECURSIVE AddRuns(_, _, _)
AddRuns(rs, es, ls) ==
    IF rs = <<>> THEN <<es, ls>>
    ELSE LET r == Head(rs) l == LocsOf(r) IN
         AddRuns(Tail(rs), Append(es, [first |-> r[1], count |-> Len(l), off |-> Len(ls)]), ls \o l)

Init == /\ \E f \in Files : blocks = BlocksOf(f)
        /\ nodes = {} /\ elems = <<>> /\ locs = <<>> /\ phase = "build"

AddBlock ==
    /\ phase = "build" /\ blocks # <<>>
    /\ LET r == AddRuns(Runs(Head(blocks), <<>>, <<>>), elems, locs)
       IN elems' = r[1] /\ locs' = r[2]
    /\ nodes' = nodes \cup {Head(blocks)[i] : i \in 1..Len(Head(blocks))}
    /\ blocks' = Tail(blocks) /\ UNCHANGED phase

Finish == /\ phase = "build" /\ blocks = <<>> /\ phase' = "done"
          /\ UNCHANGED <<blocks, nodes, elems, locs>>

Next == AddBlock \/ Finish
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- queries
\* SubIndex: the elements lo+1..hi of pass cur of cnt
Total == Len(locs)
RECURSIVE SumBefore(_)
SumBefore(i) == IF i = 0 THEN 0 ELSE elems[i].count + SumBefore(i-1)
FirstAtLeast(from, target) ==      \* number of elements before the first whose running total >= target
    LET S == {i \in from..(Len(elems)-1) : SumBefore(i) >= target}
    IN IF S = {} THEN Len(elems) ELSE CHOOSE i \in S : \A j \in S : i <= j
Pass(cur, cnt) ==
    LET lo == FirstAtLeast(0, (Total * cur) \div cnt)
        hi == FirstAtLeast(lo, (Total * (cur+1)) \div cnt)
    IN [lo |-> lo, hi |-> hi,
        top |-> IF hi = 0 THEN 0 ELSE elems[hi].first + elems[hi].count - 1]

Cmp(e, id) == IF id < e.first THEN -1 ELSE IF id > e.first + e.count - 1 THEN 1 ELSE 0
At(e, id) == locs[e.off + (id - e.first) + 1]

RECURSIVE Bisect(_, _, _, _)
Bisect(s, id, lo, hi) ==          \* -1, or the element which contains id
    IF lo >= hi THEN (IF lo < Len(s) /\ Cmp(s[lo+1], id) = 0 THEN lo ELSE -1)
    ELSE LET mid == (lo + hi) \div 2
             c == Cmp(s[mid+1], id)
         IN IF c < 0 THEN Bisect(s, id, lo, mid)
            ELSE IF c = 0 THEN mid
            ELSE Bisect(s, id, mid + 1, hi)

\* FindNode(id, hint) on one pass: <<location or 0, next hint>>
Find(p, id, hint) ==
    LET s == SubSeq(elems, p.lo + 1, p.hi)
        n == Len(s)
        ok == hint < n
        c == IF ok THEN Cmp(s[hint+1], id) ELSE 0
        r == Bisect(s, id, IF ok /\ c = 1 THEN hint ELSE 0, IF ok /\ c = -1 THEN hint ELSE n)
    IN IF id > p.top THEN <<0, hint>>
       ELSE IF ok /\ c = 0 THEN <<At(s[hint+1], id), hint>>
       ELSE IF r = -1 THEN <<0, hint>>
       ELSE <<At(s[r+1], id), r>>

\* ------------------------------------------------------------- properties
Done == phase = "done"
Hints(p) == 0..(p.hi - p.lo + 1)
Expected(id) == IF id \in nodes THEN id + 1000 ELSE 0

\* C03: a single pass answers every id, whatever the hint
LookupsExact == Done =>
    LET p == Pass(0, 1) IN
    \A id \in 0..(MaxId+1), h \in Hints(p) : Find(p, id, h)[1] = Expected(id)

\* C04: the passes partition the nodes in order, and together answer as one pass does
PassesPartition == Done =>
    \A n \in 1..MaxPasses :
        /\ Pass(0, n).lo = 0 /\ Pass(n-1, n).hi = Len(elems)
        /\ \A c \in 0..(n-2) : Pass(c, n).hi = Pass(c+1, n).lo
PassesExact == Done =>
    \A n \in 1..MaxPasses : \A c \in 0..(n-1) :
        LET p == Pass(c, n)
            mine == UNION {elems[i].first..(elems[i].first + elems[i].count - 1) : i \in (p.lo+1)..p.hi}
        IN \A id \in 0..(MaxId+1), h \in Hints(p) :
              Find(p, id, h)[1] = (IF id \in mine THEN Expected(id) ELSE 0)
PassesBalanced == Done =>
    \A n \in 1..MaxPasses : \A c \in 0..(n-1) :
        LET p == Pass(c, n)
            big == IF elems = <<>> THEN 0 ELSE CHOOSE k \in {elems[i].count : i \in 1..Len(elems)} :
                                                 \A i \in 1..Len(elems) : elems[i].count <= k
        IN SumBefore(p.hi) - SumBefore(p.lo) <= (Total + n - 1) \div n + big
HintsUsable == Done =>
    LET p == Pass(0, 1) IN \A id \in 0..(MaxId+1), h \in Hints(p) : Find(p, id, h)[2] \in Hints(p)
WellFormed ==
    /\ \A i \in 1..Len(elems) : elems[i].count >= 1
    /\ \A i \in 1..(Len(elems)-1) :
          /\ elems[i].first + elems[i].count - 1 < elems[i+1].first
          /\ elems[i+1].off = elems[i].off + elems[i].count
    /\ Len(elems) > 0 => elems[1].off = 0 /\ elems[Len(elems)].off + elems[Len(elems)].count = Len(locs)
=============================================================================
