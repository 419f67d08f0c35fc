---------------------------- MODULE RelIdxTrace ----------------------------
(* Validates the complete output of runs of the real relindex against RelIdx's Exact.
   CONSTS, one line per file: rels = <<<<id, <<<<type, way>>...>>>>...>> in file order where
   way is a position in wids for way members and 0 for others; wids[w] = <<id, j>> with j
   the way's position in ways, 0 when the way index does not have it; ways[j] = its
   references; lists = the location lists which occur in the outputs. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)
Dedup(s) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ acc[Len(acc)] = x THEN acc ELSE Append(acc, x), <<>>, s)
Exp == [f \in DOMAIN Conf |-> [i \in DOMAIN Conf[f].ways |-> Dedup(Conf[f].ways[i])]]
WaysOf(m) == SelectSeq(m, LAMBDA x : x[1] = 1)
Members == [f \in DOMAIN Conf |-> [i \in DOMAIN Conf[f].rels |-> WaysOf(Conf[f].rels[i][2])]]
\* lists[o] is what the way index has for way w
Fits(f, w, o) == LET j == Conf[f].wids[w][2] IN Conf[f].lists[o] = IF j = 0 THEN <<>> ELSE Exp[f][j]

VARIABLES l, k, st, next
vars == <<l, k, st, next>>
E == Trace[l]
C == Conf[k]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1 /\ k = 0 /\ st = "idle" /\ next = 1

Run == Ev("run") /\ st = "idle" /\ E.rc = 0 /\ k' = E.k /\ st' = "reading" /\ next' = 1

\* one record of the output: E.id, E.n ways announced, E.ways = <<<<id, list>>...>>
Record == /\ Ev("rec") /\ st = "reading" /\ next <= Len(C.rels)
          /\ LET r == C.rels[next]
                 w == Members[k][next]
             IN /\ E.id = r[1] /\ E.n = Len(w) /\ Len(E.ways) = Len(w)
                /\ TRUE = (\A i \in 1..Len(w) : E.ways[i][1] = C.wids[w[i][2]][1] /\ Fits(k, w[i][2], E.ways[i][2]))
          /\ next' = next + 1 /\ UNCHANGED <<k, st>>
EndRun == Ev("endrun") /\ st = "reading" /\ next = Len(C.rels) + 1 /\ st' = "idle" /\ UNCHANGED <<k, next>>
Next == Run \/ Record \/ EndRun
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Sane == next >= 1 /\ k <= Len(Conf)
=============================================================================
