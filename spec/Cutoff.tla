------------------------------- MODULE Cutoff -------------------------------
(* Reading an index of which the end may be missing.  A file is a header, an entry for each range, and the locations of
   each range, copied cell by cell; the copy can break off anywhere.  The reader opens what there is, shares the ranges
   out by the locations it sees, and answers lookups pass by pass.
   How: "all"    the design: the header tells the number of entries, the last entry how many locations there have to be
        "seen"   what is there is taken for the whole                                   (bad: ranges in no pass)
        "use"    a missing location is noticed when it is looked up                     (bad: ranges in no pass are not looked up)
        "entry"  missing entries are noticed, missing locations are not                 (bad)
        "first"  the locations of the first entry have to be there                      (bad) *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxEntries, MaxCount, MaxPasses, How
VARIABLES counts, cells, copying, passes, p, found, at, status
vars == <<counts, cells, copying, passes, p, found, at, status>>
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
N == Len(counts)
Whole == 1 + N + Sum(counts)
Off(i) == Sum(SubSeq(counts, 1, i - 1))
\* what the reader sees
Locs == IF cells > 1 + N THEN cells - 1 - N ELSE 0
At(t) == LET s == {i \in 1..N : Off(i) >= t} IN IF s = {} THEN N + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
Begin(q) == At((Locs * q) \div passes)
End(q) == LET s == {i \in Begin(q)..N : Off(i) >= (Locs * (q + 1)) \div passes} IN IF s = {} THEN N + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
Init == /\ counts \in UNION {[1..k -> 1..MaxCount] : k \in 0..MaxEntries}
        /\ cells = 0 /\ copying = TRUE /\ passes \in 1..MaxPasses /\ p = 0 /\ found = {} /\ at = 1 /\ status = "none"
Copy == copying /\ cells < Whole /\ cells' = cells + 1 /\ UNCHANGED <<counts, copying, passes, p, found, at, status>>
Break == copying /\ copying' = FALSE /\ UNCHANGED <<counts, cells, passes, p, found, at, status>>
Good == CASE How \in {"seen", "use"} -> cells >= 1 /\ cells >= 1 + N
          [] How = "entry" -> cells >= 1 + N
          [] How = "first" -> cells >= 1 + N /\ (N = 0 \/ Locs >= counts[1])
          [] OTHER -> cells >= 1 + N /\ Locs >= Sum(counts)
Open == /\ ~copying /\ status = "none"
        /\ IF Good THEN status' = "open" ELSE status' = "refused"
        /\ UNCHANGED <<counts, cells, copying, passes, p, found, at>>
\* one range after the other
Find == /\ status = "open" /\ p < passes /\ at <= N
        /\ LET have == at >= Begin(p) /\ at < End(p)
           IN IF ~have THEN found' = found /\ status' = status
              ELSE IF Off(at) + counts[at] <= Locs THEN found' = found \cup {at} /\ status' = status
              ELSE found' = found /\ status' = (IF How \in {"use", "entry", "first"} THEN "refused" ELSE status)
        /\ at' = at + 1 /\ UNCHANGED <<counts, cells, copying, passes, p>>
NextPass == /\ status = "open" /\ p < passes /\ at > N /\ p' = p + 1 /\ at' = 1
            /\ UNCHANGED <<counts, cells, copying, passes, found, status>>
Close == status = "open" /\ p = passes /\ status' = "ok" /\ UNCHANGED <<counts, cells, copying, passes, p, found, at>>
Next == Copy \/ Break \/ Open \/ Find \/ NextPass \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* a result is the result of the whole index
NeverSilent == status = "ok" => found = 1..N
\* and the whole index is taken
Taken == status = "refused" => cells < Whole
Ends == <>(status \in {"ok", "refused"})
=============================================================================
