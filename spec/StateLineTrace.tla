--------------------------- MODULE StateLineTrace ---------------------------
(* Histories of the real state objects and lines.  Events of part k:
     line line        a fresh line
     op op arg / done an operation on the state begins / is over
     look / see seen  the line is refreshed / shows seen: [st, and the values it has]
   and of the real workers of a tool behind the display:
     begin n tool keep drop   n workers start; what filtering keeps and drops of each block
     feed i / take i  one of the waiting workers gets block i / has handed it on
     ended            all workers have ended
     lines seen       what the lines of the workers show, from top to bottom, everything being still
   (a hang, or two unsynchronised accesses, are no action) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, line, As, busy, lo, ws
SL == INSTANCE StateLine WITH Line <- "", OpNames <- {}, NOps <- 0, NLooks <- 0, StateFirst <- FALSE, ValuesFirst <- FALSE,
        mem <- 0, cur <- 0, todo <- {}, seen <- 0, pc <- "", looks <- 0
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1 /\ line = "" /\ As = <<>> /\ busy = FALSE /\ lo = 0 /\ ws = <<>>

NewLine == Ev("line") /\ line' = E.line /\ As' = <<SL!Zero>> /\ busy' = FALSE /\ lo' = 0 /\ UNCHANGED ws
Op == /\ Ev("op") /\ ~busy /\ busy' = TRUE
      /\ As' = Append(As, SL!After(As[Len(As)], [op |-> E.op, arg |-> E.arg]))
      /\ UNCHANGED <<line, lo, ws>>
OpDone == Ev("done") /\ busy /\ busy' = FALSE /\ UNCHANGED <<line, As, lo, ws>>
Look == Ev("look") /\ lo' = (IF busy THEN Len(As) - 1 ELSE Len(As)) /\ UNCHANGED <<line, As, busy, ws>>
See == /\ Ev("see")
       /\ TRUE = (SL!Shows(line, E.seen.st) \subseteq DOMAIN E.seen)
       /\ TRUE = SL!Fits(line, E.seen, As, lo, Len(As))
       /\ UNCHANGED <<line, As, busy, lo, ws>>

\* a worker: the block it holds (0 none, else number + 1) and its counts
Begin == /\ Ev("begin")
         /\ line' = E.tool \o ".worker"
         /\ As' = <<E.keep, E.drop>>
         /\ ws' = [i \in 1..E.n |-> [has |-> 0, a |-> 0, b |-> 0]]
         /\ UNCHANGED <<busy, lo>>
Feed == /\ Ev("feed")
        /\ \E w \in DOMAIN ws :
             /\ ws[w].has = 0
             /\ ws' = [ws EXCEPT ![w] = [has |-> E.i + 1, a |-> @.a + As[1][E.i + 1], b |-> @.b + As[2][E.i + 1]]]
        /\ UNCHANGED <<line, As, busy, lo>>
Take == /\ Ev("take")
        /\ \E w \in DOMAIN ws : ws[w].has = E.i + 1 /\ ws' = [ws EXCEPT ![w].has = 0]
        /\ UNCHANGED <<line, As, busy, lo>>
Ended == /\ Ev("ended")
         /\ TRUE = (\A w \in DOMAIN ws : ws[w].has = 0)
         /\ ws' = <<>>
         /\ UNCHANGED <<line, As, busy, lo>>
\* the lines, in some order, are those of the workers
Field(st, f, v) == IF f \in SL!Shows(line, st) THEN v + 1 ELSE 0
View(w) == LET st == IF w.has = 0 THEN "waiting" ELSE "sending" IN
           <<st, Field(st, "blk", w.has - 1), Field(st, "a", w.a), Field(st, "b", w.b)>>
Norm(s) == <<s.st, Field(s.st, "blk", IF "blk" \in DOMAIN s THEN s.blk ELSE -5),
             Field(s.st, "a", IF "a" \in DOMAIN s THEN s.a ELSE -5), Field(s.st, "b", IF "b" \in DOMAIN s THEN s.b ELSE -5)>>
Lines == /\ Ev("lines")
         /\ Len(E.seen) = Len(ws)
         /\ \E vs \in {[i \in DOMAIN ws |-> View(ws[i])]} : \E ns \in {[i \in DOMAIN ws |-> Norm(E.seen[i])]} :
              TRUE = (\A i \in DOMAIN vs : Cardinality({j \in DOMAIN vs : vs[j] = vs[i]}) = Cardinality({j \in DOMAIN ns : ns[j] = vs[i]}))
         /\ UNCHANGED <<line, As, busy, lo, ws>>
Next == NewLine \/ Op \/ OpDone \/ Look \/ See \/ Begin \/ Feed \/ Take \/ Ended \/ Lines
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
