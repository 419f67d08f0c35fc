--------------------------------- MODULE Dir ---------------------------------
(* The files around the runs of a tool.  A run reads an input and writes its output in P steps, through P - 1
   files of its own, which it removes; it may end at any point.  Runs follow one another and find what the ones before
   have left.
   How: "ok"       the design
        "left"     of several files of its own only the last is removed            (bad)
        "tail"     an output which is there is overwritten without being cut       (bad)
        "tmptail"  a file of its own which is there is overwritten without cutting (bad)
        "shared"   the files of its own are named without regard to the output     (bad: strikes another file)
        "inplace"  the first step goes to the input                                (bad)
        "clean"    an ending run removes its output first, even if it is not whole (allowed: only failed runs differ) *)
EXTENDS Integers, Sequences
CONSTANTS MaxRuns, Sizes, Outs, MaxP, How
VARIABLES dir, before, o, s, P, j, pos, pc, rc, runs
vars == <<dir, before, o, s, P, j, pos, pc, rc, runs>>
Absent == <<-1>>
Inputs == {<<"in", x>> : x \in Sizes}
Names == Inputs \cup (Outs \X (0..(MaxP - 1))) \cup {<<"x", i>> : i \in 0..MaxP}
Start(x) == CASE x[1] = "in" -> [i \in 1..x[2] |-> i] [] x = <<"x", 1>> -> <<7, 7>> [] OTHER -> Absent
Init == /\ dir = [x \in Names |-> Start(x)] /\ before = dir
        /\ o \in Outs /\ s \in Sizes /\ P \in 1..MaxP /\ j = 0 /\ pos = 0 /\ pc = "idle" /\ rc = -1 /\ runs = 0
File(k) == IF k = 0 THEN <<"in", s>>
           ELSE IF How = "inplace" /\ k = 1 /\ P > 1 THEN <<"in", s>>
           ELSE IF k = P THEN <<o, 0>>
           ELSE IF How = "shared" THEN <<"x", k>> ELSE <<o, k>>
Begin == /\ pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
         /\ o' \in Outs /\ s' \in Sizes /\ P' \in 1..MaxP
         /\ j' = 1 /\ pos' = 0 /\ pc' = "create" /\ rc' = -1 /\ before' = dir /\ UNCHANGED dir
Uncut(k) == (How = "tail" /\ k = P) \/ (How = "tmptail" /\ k < P)
Create == /\ pc = "create"
          /\ dir' = IF Uncut(j) /\ dir[File(j)] # Absent THEN dir ELSE [dir EXCEPT ![File(j)] = IF How = "inplace" /\ File(j) = <<"in", s>> THEN @ ELSE <<>>]
          /\ pc' = "write" /\ pos' = 0 /\ UNCHANGED <<before, o, s, P, j, rc, runs>>
Put(f, k, v) == IF k <= Len(f) THEN [f EXCEPT ![k] = v] ELSE Append(f, v)
Write == /\ pc = "write" /\ pos < Len(dir[File(j - 1)])
         /\ dir' = [dir EXCEPT ![File(j)] = Put(@, pos + 1, dir[File(j - 1)][pos + 1] + 10)]
         /\ pos' = pos + 1 /\ UNCHANGED <<before, o, s, P, j, pc, rc, runs>>
\* the step is done: its source goes if it is one of its own
Done == /\ pc = "write" /\ pos = Len(dir[File(j - 1)])
        /\ dir' = IF j > 1 /\ File(j - 1)[1] # "in" /\ ~(How = "left" /\ j < P) THEN [dir EXCEPT ![File(j - 1)] = Absent] ELSE dir
        /\ IF j < P THEN j' = j + 1 /\ pc' = "create" /\ UNCHANGED rc ELSE j' = j /\ pc' = "idle" /\ rc' = 0
        /\ UNCHANGED <<before, o, s, P, pos, runs>>
Fail == /\ pc # "idle" /\ pc' = "idle" /\ rc' = 1
        /\ dir' = IF How = "clean" THEN [dir EXCEPT ![<<o, 0>>] = Absent] ELSE dir
        /\ UNCHANGED <<before, o, s, P, j, pos, runs>>
Next == Begin \/ Create \/ Write \/ Done \/ Fail
Spec == Init /\ [][Next]_vars
Own == {<<o, k>> : k \in 0..(MaxP - 1)}
InputsKept == \A x \in Inputs : dir[x] = Start(x)
\* only files of its own name are ever touched
OthersKept == \A x \in Names \ Own : dir[x] = before[x]
Result == [i \in 1..s |-> i + 10 * P]
Clean == (pc = "idle" /\ rc = 0) =>
           /\ dir[<<o, 0>>] = Result
           /\ \A k \in 1..(P - 1) : dir[<<o, k>>] = Absent                   \* nothing of its own is left
           /\ \A x \in Names \ {<<o, 0>>} : dir[x] \in {before[x], Absent}   \* and nothing else is new
=============================================================================
