------------------------------- MODULE Lookup -------------------------------
(* Looking things up in several passes.  An index is a sequence of ranges of ids with gaps between them and holes (ids
   in a range of which nothing is known).  The work is divided into passes, so that an equal share of the index is
   below a target; each pass knows the ranges of its share, and workers take blocks of references through it.
   A reference which is found is replaced and not looked up again.  Each lookup is counted by its kind:
     "hint"      in the range where the last successful one of the block was (at first: the first range of the share)
     "other"     in another range of the share
     "deferred"  above the share
     "none"      anywhere else
   and when all is done the counters are printed.
   How: "all"     the design
        "torn"    a counter is read and written in two steps        (bad)
        "carry"   a worker keeps its hint from block to block       (bad: depends on the schedule)
        "again"   references which are replaced are looked up again (bad)
        "early"   printed before the last block of a pass is done   (bad)
        "floor"   as many passes as the target goes into the whole  (bad: shares above the target, or no pass)
        "below"   what is below the share is not counted            (bad) *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS MaxId, Targets, Workers, MaxLen, Few, How

VARIABLES els, holes, target, blocks, passes, p, todo, w, n, printed
vars == <<els, holes, target, blocks, passes, p, todo, w, n, printed>>

Kinds == {"hint", "other", "deferred", "none"}
Size(e) == e[2] - e[1] + 1
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Off(i) == Sum([j \in 1..(i - 1) |-> Size(els[j])])
Total == Off(Len(els) + 1)
\* ------------------------------------------------------------------- contract
Fewest(t) == IF t = 0 THEN 1 ELSE CHOOSE k \in 1..(Total + 1) : Total < k * t /\ \A j \in 1..(k - 1) : Total >= j * t
\* the share of pass q of k: from the first range behind which q/k of the whole are
At(t) == LET s == {i \in 1..Len(els) : Off(i) >= t} IN IF s = {} THEN Len(els) + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
First(q, k) == IF q = k THEN Len(els) + 1 ELSE At((Total * q) \div k)
Share(q, k) == First(q, k)..(First(q + 1, k) - 1)
Top(q, k) == IF First(q + 1, k) = 1 THEN 0 ELSE els[First(q + 1, k) - 1][2]
In(r, i) == els[i][1] <= r /\ r <= els[i][2]
Where(r, S) == IF \E i \in S : In(r, i) THEN CHOOSE i \in S : In(r, i) ELSE 0
Kind(r, h, q, k) == LET i == Where(r, Share(q, k))
                    IN IF r > Top(q, k) THEN "deferred" ELSE IF i = 0 THEN "none" ELSE IF i = h THEN "hint" ELSE "other"
Hint(r, h, q, k) == LET i == Where(r, Share(q, k)) IN IF i = 0 THEN h ELSE i
Known(r, q, k) == Where(r, Share(q, k)) # 0 /\ r \notin holes
\* still to be looked up when pass q starts
Open(r, q, k) == r >= 0 /\ \A o \in 0..(q - 1) : ~Known(r, o, k)
None == [k \in Kinds |-> 0]
\* counting the references of a block in a pass, one by one
RECURSIVE CountOf(_, _, _, _, _)
CountOf(refs, h, c, q, k) ==
  IF refs = <<>> THEN c
  ELSE LET r == Head(refs) IN
       IF ~Open(r, q, k) THEN CountOf(Tail(refs), h, c, q, k)
       ELSE CountOf(Tail(refs), Hint(r, h, q, k), [c EXCEPT ![Kind(r, h, q, k)] = @ + 1], q, k)
Add(c, d) == [x \in Kinds |-> c[x] + d[x]]
Expected == FoldLeft(LAMBDA c, q : FoldLeft(LAMBDA d, b : Add(d, CountOf(b, First(q - 1, passes), None, q - 1, passes)), c, blocks),
                     None, [q \in 1..passes |-> q])

\* ---------------------------------------------------------------- the system
Ids == 0..MaxId
Layouts == IF Few THEN {<<>>, <<<<1, 1>>>>, <<<<0, 0>>, <<2, 3>>>>, <<<<0, 2>>, <<3, 3>>>>} ELSE {s \in UNION {[1..m -> {x \in Ids \X Ids : x[1] <= x[2]}] : m \in 0..2} : \A i \in 1..(Len(s) - 1) : s[i][2] < s[i + 1][1]}
Lists(m) == UNION {[1..j -> {-1} \cup Ids] : j \in 0..m}
Idle == [b |-> 0, at |-> 0, hint |-> 0, tmp |-> <<>>]
Init == /\ els \in Layouts
        /\ holes \in {h \in SUBSET Ids : Cardinality(h) <= 1 /\ \A x \in h : \E i \in 1..Len(els) : In(x, i) /\ x # els[i][1] /\ x # els[i][2]}
        /\ target \in Targets
        /\ blocks \in Lists(MaxLen) \X Lists(1)
        /\ passes = (IF target = 0 THEN 1 ELSE IF How = "floor" THEN Total \div target ELSE (Total \div target) + 1)
        /\ p = 0 /\ todo = {1, 2} /\ w = [x \in 1..Workers |-> Idle] /\ n = None /\ printed = "no"
Here == p < passes /\ printed = "no"
Take(x) == /\ Here /\ w[x].b = 0 /\ \E b \in todo :
                /\ w' = [w EXCEPT ![x] = [b |-> b, at |-> 1, hint |-> IF How = "carry" /\ w[x].hint # 0 THEN w[x].hint ELSE First(p, passes), tmp |-> <<>>]]
                /\ todo' = todo \ {b}
           /\ UNCHANGED <<els, holes, target, blocks, passes, p, n, printed>>
Look(x) == /\ w[x].b # 0 /\ w[x].tmp = <<>> /\ w[x].at <= Len(blocks[w[x].b])
           /\ LET r == blocks[w[x].b][w[x].at]
                  k == Kind(r, w[x].hint, p, passes)
              IN IF r < 0 \/ (How # "again" /\ ~Open(r, p, passes)) \/ (How = "below" /\ k = "none" /\ First(p, passes) <= Len(els) /\ r < els[First(p, passes)][1])
                 THEN /\ w' = [w EXCEPT ![x].at = @ + 1] /\ UNCHANGED n
                 ELSE IF How = "torn"
                 THEN /\ w' = [w EXCEPT ![x].tmp = <<k, n[k]>>, ![x].hint = Hint(r, @, p, passes)] /\ UNCHANGED n
                 ELSE /\ w' = [w EXCEPT ![x].at = @ + 1, ![x].hint = Hint(r, @, p, passes)]
                      /\ n' = [n EXCEPT ![k] = @ + 1]
           /\ UNCHANGED <<els, holes, target, blocks, passes, p, todo, printed>>
Store(x) == /\ w[x].tmp # <<>>
            /\ n' = [n EXCEPT ![w[x].tmp[1]] = w[x].tmp[2] + 1]
            /\ w' = [w EXCEPT ![x].tmp = <<>>, ![x].at = @ + 1]
            /\ UNCHANGED <<els, holes, target, blocks, passes, p, todo, printed>>
Give(x) == /\ w[x].b # 0 /\ w[x].tmp = <<>> /\ w[x].at > Len(blocks[w[x].b])
           /\ w' = [w EXCEPT ![x].b = 0]
           /\ UNCHANGED <<els, holes, target, blocks, passes, p, todo, n, printed>>
Quiet == \A x \in 1..Workers : w[x].b = 0
Pass == /\ Here /\ todo = {} /\ (How = "early" \/ Quiet)
        /\ p' = p + 1 /\ todo' = (IF p + 1 < passes THEN {1, 2} ELSE {}) /\ w' = [x \in 1..Workers |-> IF w[x].b = 0 THEN Idle ELSE w[x]]
        /\ UNCHANGED <<els, holes, target, blocks, passes, n, printed>>
Report == /\ p >= passes /\ printed = "no" /\ printed' = "yes"
         /\ w' = [x \in 1..Workers |-> Idle]
         /\ UNCHANGED <<els, holes, target, blocks, passes, p, todo, n>>
Next == (\E x \in 1..Workers : Take(x) \/ Look(x) \/ Store(x) \/ Give(x)) \/ Pass \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Accounted == printed = "yes" => n = Expected
AsAsked == passes = Fewest(target)
Largest == LET s == {Size(els[i]) : i \in 1..Len(els)} IN IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : x >= y
Below == \A q \in 0..(passes - 1) : target # 0 => Sum([j \in 1..Cardinality(Share(q, passes)) |-> Size(els[First(q, passes) + j - 1])]) <= target + Largest
\* each reference is looked up in every pass up to the one which knows it
Ends == <>(printed = "yes")
=============================================================================
