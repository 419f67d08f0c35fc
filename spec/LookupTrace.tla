----------------------------- MODULE LookupTrace -----------------------------
(* What real runs of rewritenodes and relindex print about their passes and lookups, against Lookup.
   CONSTS, a line per case:
     els[i] = <<first id, last id, size>>  the ranges of the index (or its ways: first = last), with the size by which
                                           the passes are shared out
     holes                                 ids in ranges of which nothing is known
     target, mb                            passes asked for (0: by the memory target in MB; mb = 0: no target)
     blocks[b] = <<<<id, n>>, ...>>        references in order, n times each; id < 0: replaced already
     hints                                 whether there are hints (relindex tells hits only as a whole)
   Events: passes is the sequence of passes told, counts the numbers printed, times the intervals with their numbers.
   Where a range lies across the end of a share it may be on either side of it. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)
VARIABLES l
E == Trace[l]
C == Conf[E.k]
Init == l = 1
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Off(c, i) == FoldLeft(LAMBDA x, y : x + y[3], 0, SubSeq(c.els, 1, i - 1))
Total(c) == Off(c, Len(c.els) + 1)
Fewest(c) == IF c.target # 0 THEN c.target ELSE IF c.mb = 0 THEN 1
             ELSE CHOOSE k \in 1..(Total(c) + 1) : /\ Total(c) * 8 < k * c.mb * 1048576
                                                   /\ \A j \in 1..(k - 1) : Total(c) * 8 >= j * c.mb * 1048576
At(c, t) == LET s == {i \in 1..Len(c.els) : Off(c, i) >= t} IN IF s = {} THEN Len(c.els) + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
\* the places where the share of pass q (from 0) of k may begin
Cuts(c, q, k) == IF q = 0 THEN {1} ELSE IF q = k THEN {Len(c.els) + 1}
                 ELSE LET t == (Total(c) * q) \div k
                          a == At(c, t)
                      IN {a} \cup (IF a > 1 /\ (a > Len(c.els) \/ Off(c, a) # t) THEN {a - 1} ELSE {})
\* the share of a pass is the ranges a .. b - 1
Top(c, b) == IF b = 1 THEN 0 ELSE c.els[b - 1][2]
RangeOf(c, id) == LET x == {i \in 1..Len(c.els) : c.els[i][1] <= id /\ id <= c.els[i][2]} IN IF x = {} THEN 0 ELSE CHOOSE i \in x : TRUE
Kinds == {"hint", "other", "deferred", "none"}
None == [k \in Kinds |-> 0]
\* n lookups of id, the last successful one of the block having been in range h
Step(c, a, b, st, id, n) ==
  LET r == RangeOf(c, id)
      hit == r # 0 /\ a <= r /\ r < b
      earlier == r # 0 /\ r < a /\ ~(\E j \in 1..Len(c.holes) : c.holes[j] = id)
  IN IF id < 0 \/ earlier THEN st
     ELSE IF id > Top(c, b) THEN [st EXCEPT !.n["deferred"] = @ + n]
     ELSE IF ~hit THEN [st EXCEPT !.n["none"] = @ + n]
     ELSE IF r = st.h THEN [st EXCEPT !.n["hint"] = @ + n]
     ELSE [h |-> r, n |-> [st.n EXCEPT !["other"] = @ + 1, !["hint"] = @ + n - 1]]
Block(c, a, b, refs) == FoldLeft(LAMBDA st, x : Step(c, a, b, st, x[1], x[2]), [h |-> a, n |-> None], refs).n
Add(x, y) == [k \in Kinds |-> x[k] + y[k]]
Pass(c, a, b) == FoldLeft(LAMBDA t, refs : Add(t, Block(c, a, b, refs)), None, c.blocks)
\* after the first q of k passes: where the next begins, and the numbers so far
RECURSIVE After(_, _, _)
After(c, q, k) == IF q = 0 THEN {<<1, None>>}
                  ELSE UNION {{<<b, Add(x[2], Pass(c, x[1], b))>> : b \in {y \in Cuts(c, q, k) : y >= x[1]}} : x \in After(c, q - 1, k)}
Tells(c, e, x) == /\ IF c.hints THEN e.hint = x["hint"] /\ e.other = x["other"] ELSE e.hint + e.other = x["hint"] + x["other"]
                  /\ e.deferred = x["deferred"] /\ e.none = x["none"]
                  /\ Sum([j \in 1..Len(e.times) |-> e.times[j][2]]) <= x["hint"] + x["other"] + x["deferred"] + x["none"]
Run == /\ l <= Len(Trace) /\ E.ev = "run" /\ l' = l + 1
       /\ E.rc = 0
       /\ \E k \in {Fewest(C)} :
            /\ E.passes = [j \in 1..k |-> j - 1]
            /\ E.running = (IF C.hints THEN <<>> ELSE [j \in 1..k |-> <<j, k>>])
            /\ TRUE = (\E x \in After(C, k, k) : Tells(C, E, x[2]))
       /\ TRUE = (\A j \in 1..Len(E.times) : E.times[j][2] >= 1 /\ (j > 1 => E.times[j][1] > E.times[j - 1][1]))
       /\ TRUE = (~E.timing => E.times = <<>>)
Next == Run
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
