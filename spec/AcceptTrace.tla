---------------------------- MODULE AcceptTrace ----------------------------
(* What the real tools did with files which may be damaged.  CONSTS, one line per file: b (bytes), inf (see Accept).
     run k runs     runs of tools on file k: [tool, rc, rows], rows the counts printed (entitycount: five numbers,
                    blockcount: one, others: none)
     index k ...    see below *)
EXTENDS Accept, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)
VARIABLES l
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1
Right(v, r) == /\ MustReject(v, r.tool) => r.rc # 0
               /\ MustAccept(v, r.tool) => r.rc = 0
               /\ (r.rc = 0 /\ r.tool = "blockcount" /\ "open" \notin v.iss) => r.rows = <<v.blocks>>
               /\ (r.rc = 0 /\ r.tool = "entitycount" /\ v.iss \subseteq {"hblob", "str", "tag"}) => r.rows = Counts(v)
Run == /\ Ev("run")
       /\ \E v \in {Verdict(Conf[E.k].b, Conf[E.k].inf)} : TRUE = (\A i \in DOMAIN E.runs : Right(v, E.runs[i]))
\* an input that is not there, a node index of another version: never accepted
Refuse == Ev("refuse") /\ E.rc # 0
Next == Run \/ Refuse
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
