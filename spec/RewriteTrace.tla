---------------------------- MODULE RewriteTrace ----------------------------
(* Validates runs of the real rewritenodes against Rewrite's contract (Result, Exact):
   blob by blob, entity by entity.  Entities are tuples of interned values:
     <<1, id, lon, lat, tags>>   <<2, id, tags, refs>>   <<3, id, tags, members>>
   References of the input are positions in the id table of the file; references of the
   output are words (four limbs).  ids[i].at is the position of the indexed node
   with that id (two candidates per coordinate when the file's granularity does not give
   whole 1e-7 degrees), <<>> when the index has no such node. *)
EXTENDS Words, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)

VARIABLES l, k, st, left
vars == <<l, k, st, left>>
E == Trace[l]
C == Conf[k]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1

Init == l = 1 /\ k = 0 /\ st = "idle" /\ left = 0

\* a run of the tool on file k: it must succeed and write as many blobs as it read
Run == /\ Ev("run") /\ st = "idle" /\ E.rc = 0 /\ E.nout = E.nin
       /\ k' = E.k /\ left' = E.nin /\ st' = "reading"

RefOK(r, w) == LET x == C.ids[r] IN
    IF x.at = <<>> THEN w = x.w
    ELSE \E lon \in {x.at[1], x.at[2]}, lat \in {x.at[3], x.at[4]} : w = Loc(lon, lat)

EntityOK(i, o) ==
    IF i[1] = 2
    THEN /\ o[1] = 2 /\ o[2] = i[2] /\ o[3] = i[3]
         /\ Len(o[4]) = Len(i[4])
         /\ \A j \in 1..Len(i[4]) : RefOK(i[4][j], o[4][j])
    ELSE o = i

Blob == /\ Ev("blob") /\ st = "reading" /\ left > 0
        /\ E.tout = E.tin
        /\ E.hout = E.hin                      \* content of a header blob, 0 otherwise
        /\ Len(E.out) = Len(E.in)
        /\ TRUE = (\A j \in 1..Len(E.in) : EntityOK(E.in[j], E.out[j]))   \* as a value, not as nested conjuncts
        /\ left' = left - 1 /\ UNCHANGED <<k, st>>

EndRun == Ev("endrun") /\ st = "reading" /\ left = 0 /\ st' = "idle" /\ UNCHANGED <<k, left>>

Next == Run \/ Blob \/ EndRun
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Sane == left >= 0 /\ k <= Len(Conf)
=============================================================================
