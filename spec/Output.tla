------------------------------- MODULE Output -------------------------------
(* A tool writes its result through P files, one after the other: pass p reads what pass p-1
   wrote (pass 1 reads the input, which has N items) and writes its own file; file P is the
   output.  Every operation on a file may fail, a write may also be short.
   Design: "ok"     every failure ends the tool with a non-zero status, a short write is continued
           "write"  failed writes are ignored       "short" a short write counts as complete
           "close"  failed closes are ignored (data may be lost at a close)
           "mid"    failures are ignored in all files but the last
           "create" a failed creation is ignored: nothing is written
           "skip"   as "ok", but a failure in the last write of a file is overlooked *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, P, Designs, MaxFail
VARIABLES design, p, pc, src, file, i, rc, fails
vars == <<design, p, pc, src, file, i, rc, fails>>
Items == [j \in 1..N |-> j]
Init == /\ design \in Designs /\ p = 1 /\ pc = "create" /\ src = Items /\ file = <<>> /\ i = 1 /\ rc = -1 /\ fails = 0

Ignored(op) == \/ design = "mid" /\ p < P
               \/ design = op
               \/ design = "skip" /\ op = "write" /\ i = Len(src)
Exit(code) == pc' = "end" /\ rc' = code
Create == /\ pc = "create"
          /\ \/ pc' = "write" /\ UNCHANGED <<rc, fails>>
             \/ /\ fails < MaxFail /\ fails' = fails + 1
                /\ IF Ignored("create") THEN pc' = "nofile" /\ UNCHANGED rc ELSE Exit(1)
          /\ UNCHANGED <<design, p, src, file, i>>
\* one item is two cells, so that a write can be short
Cells(x) == <<x, 0 - x>>
Write == /\ pc = "write" /\ i <= Len(src)
         /\ \/ file' = file \o Cells(src[i]) /\ i' = i + 1 /\ UNCHANGED <<pc, rc, fails>>
            \/ \* short: the rest is written by another operation, which may fail
               /\ fails < MaxFail /\ fails' = fails + 1
               /\ file' = Append(file, src[i])
               /\ IF design = "short" THEN i' = i + 1 /\ UNCHANGED <<pc, rc>> ELSE pc' = "rest" /\ UNCHANGED <<rc, i>>
            \/ /\ fails < MaxFail /\ fails' = fails + 1
               /\ IF Ignored("write") THEN i' = i + 1 /\ UNCHANGED <<pc, rc>> ELSE Exit(1) /\ UNCHANGED i
               /\ UNCHANGED file
         /\ UNCHANGED <<design, p, src>>
Rest == /\ pc = "rest"
        /\ \/ file' = Append(file, 0 - src[i]) /\ i' = i + 1 /\ pc' = "write" /\ UNCHANGED <<rc, fails>>
           \/ /\ fails < MaxFail /\ fails' = fails + 1
              /\ IF Ignored("write") THEN i' = i + 1 /\ pc' = "write" /\ UNCHANGED rc ELSE Exit(1) /\ UNCHANGED i
              /\ UNCHANGED file
        /\ UNCHANGED <<design, p, src>>
Full(f) == SelectSeq(f, LAMBDA c : c > 0 /\ \E j \in DOMAIN f : f[j] = 0 - c)
NextPass(f) == IF p = P THEN pc' = "end" /\ rc' = 0 /\ UNCHANGED <<p, src, file, i>>
               ELSE /\ p' = p + 1 /\ src' = Full(f) /\ file' = <<>> /\ i' = 1 /\ pc' = "create" /\ UNCHANGED rc
Close == /\ pc = "write" /\ i > Len(src)
         /\ \/ NextPass(file) /\ UNCHANGED fails
            \/ /\ fails < MaxFail /\ fails' = fails + 1
               /\ IF Ignored("close")
                  THEN \* what was not yet flushed is lost
                       LET f == SubSeq(file, 1, Len(file) - 2) IN
                       IF p = P THEN file' = f /\ pc' = "end" /\ rc' = 0 /\ UNCHANGED <<p, src, i>> ELSE NextPass(f)
                  ELSE Exit(1) /\ UNCHANGED <<p, src, file, i>>
         /\ UNCHANGED design
NoFile == pc = "nofile" /\ NextPass(<<>>) /\ UNCHANGED <<design, fails>>
Next == Create \/ Write \/ Rest \/ Close \/ NoFile
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* status 0 means that everything is there
Honest == rc = 0 => Full(file) = Items /\ Len(file) = 2 * N
Ends == <>(pc = "end")
=============================================================================
