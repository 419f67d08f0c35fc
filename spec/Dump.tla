-------------------------------- MODULE Dump --------------------------------
(* Printing an index part by part.  An index is a sequence of elements with counts; the locations are shared out
   evenly over N passes, each pass takes the elements at which its share begins, and a dump walks through the
   elements of a pass, or some of them, and through the locations of each.
   How: "all"    the design
        "last"   the last location of an element is left out          (bad)
        "end"    one element past the end asked for                   (bad)
        "clip"   an end asked for is not limited to the elements      (bad)
        "total"  the share of the last pass is rounded down           (bad: loses the last elements)
        "rel"    locations are counted from the first of the pass     (bad) *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS MaxEls, MaxCount, MaxPass, How
VARIABLES els, n, p, a, b, cur, idx, out, done
vars == <<els, n, p, a, b, cur, idx, out, done>>
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Off(i) == Sum(SubSeq(els, 1, i - 1))                         \* locations before element i
Total == IF How = "total" THEN (Sum(els) \div n) * n ELSE Sum(els)
\* the first element at which at least t locations are past; past the end if there is none
At(t) == LET s == {i \in 1..Len(els) : Off(i) >= t} IN IF s = {} THEN Len(els) + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
First(q) == At((Total * q) \div n)
After(q) == LET s == {i \in First(q)..Len(els) : Off(i) >= (Total * (q + 1)) \div n}
            IN IF s = {} THEN (IF How = "total" THEN At((Total * (q + 1)) \div n) ELSE Len(els) + 1) ELSE CHOOSE i \in s : \A j \in s : i <= j
Size == After(p) - First(p)
Far == MaxEls + 1
From == a
To == IF b = -1 THEN Size ELSE IF How = "clip" \/ b <= Size THEN (IF How = "end" /\ b < Size THEN b + 1 ELSE b) ELSE Size
Init == /\ els \in UNION {[1..k -> 1..MaxCount] : k \in 0..MaxEls} /\ n \in 1..MaxPass /\ p = 0
        /\ \E ab \in {<<0, -1>>} \cup ({0, 1, 2} \X {-1, 1, 2, Far}) : a = ab[1] /\ b = ab[2]
        /\ cur = From /\ idx = 0 /\ out = <<<<>>>> /\ done = FALSE
\* one location
PrintOne == /\ ~done /\ cur < To
            /\ LET e == First(p) + cur
                   k == IF e <= Len(els) THEN els[e] - (IF How = "last" THEN 1 ELSE 0) ELSE 0
               IN IF e > Len(els) THEN out' = [out EXCEPT ![p + 1] = Append(@, "panic")] /\ cur' = cur + 1 /\ idx' = 0
                  ELSE IF idx >= k THEN cur' = cur + 1 /\ idx' = 0 /\ UNCHANGED out
                  ELSE /\ out' = [out EXCEPT ![p + 1] = Append(@, <<e, idx, (IF How = "rel" THEN Off(e) - Off(First(p)) ELSE Off(e)) + idx>>)]
                       /\ idx' = idx + 1 /\ cur' = cur
            /\ UNCHANGED <<els, n, p, a, b, done>>
NextPass == /\ ~done /\ cur >= To
            /\ IF p + 1 < n THEN p' = p + 1 /\ out' = Append(out, <<>>) /\ done' = FALSE ELSE p' = p /\ out' = out /\ done' = TRUE
            /\ cur' = From /\ idx' = 0
            /\ UNCHANGED <<els, n, a, b>>
Next == PrintOne \/ NextPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Line(e, i) == <<e, i, Off(e) + i>>
Lines(e) == [i \in 1..els[e] |-> Line(e, i - 1)]
Whole == FoldLeft(LAMBDA x, e : x \o Lines(e), <<>>, [i \in 1..Len(els) |-> i])
Printed == FoldLeft(LAMBDA x, y : x \o y, <<>>, out)
\* all of it, once, in order
Complete == done /\ a = 0 /\ b = -1 => Printed = Whole
\* a part of the elements of a pass is that part of what the pass prints
Part == done /\ n = 1 /\ b # -1 =>
          Printed = FoldLeft(LAMBDA x, e : x \o Lines(e), <<>>, SelectSeq([i \in 1..Len(els) |-> i], LAMBDA e : e > a /\ e <= b))
Ends == <>done
=============================================================================
