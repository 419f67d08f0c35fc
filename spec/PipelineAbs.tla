---------------------------- MODULE PipelineAbs ----------------------------
(* The contract of pbf.ProcessFileAsync as its users see it: which blocks have
   been handed to a worker, sent on, and received by the writer.  Says nothing
   about goroutines or channels, so any buffering is allowed. *)
EXTENDS Integers, FiniteSets

VARIABLES B, W,     \* number of blocks and workers of this run (never change)
          given,    \* blocks which were handed to some worker
          working,  \* blocks a worker holds
          queued,   \* blocks which were sent on, and not written yet
          written,  \* number of blocks the writer has received
          live,     \* workers which have not returned
          writing,  \* the writer has not returned
          stop,     \* cancelled
          over      \* Wait() has returned

absvars == <<given, working, queued, written, live, writing, stop, over>>

Init == /\ given = {} /\ working = {} /\ queued = {} /\ written = 0
        /\ live = 1..W /\ writing = TRUE /\ stop = FALSE /\ over = FALSE

Give(i) == /\ i \in (0..B-1) \ given /\ live # {} /\ ~over
           /\ given' = given \cup {i} /\ working' = working \cup {i}
           /\ UNCHANGED <<queued, written, live, writing, stop, over>>

SendOn(i) == /\ i \in working
             /\ working' = working \ {i} /\ queued' = queued \cup {i}
             /\ UNCHANGED <<given, written, live, writing, stop, over>>

WriteNext == /\ written \in queued /\ writing
             /\ queued' = queued \ {written} /\ written' = written + 1
             /\ UNCHANGED <<given, working, live, writing, stop, over>>

\* workers stop only when everything was handed out, or after a cancel
Retire(w) == /\ w \in live
             /\ given = 0..B-1 \/ stop
             /\ live' = live \ {w}
             /\ UNCHANGED <<given, working, queued, written, writing, stop, over>>

\* the writer stops only once every block handed to a worker reached it
Finish == /\ writing /\ live = {} /\ working = {} /\ queued = {}
          /\ given = 0..(written-1)
          /\ writing' = FALSE
          /\ UNCHANGED <<given, working, queued, written, live, stop, over>>

Stop == /\ ~stop /\ stop' = TRUE
        /\ UNCHANGED <<given, working, queued, written, live, writing, over>>

Over == /\ ~over /\ ~writing /\ live = {}
        /\ stop \/ written = B
        /\ over' = TRUE
        /\ UNCHANGED <<given, working, queued, written, live, writing, stop>>

Next == \/ \E i \in 0..B-1 : Give(i) \/ SendOn(i)
        \/ \E w \in 1..W : Retire(w)
        \/ WriteNext \/ Finish \/ Stop \/ Over

Spec == Init /\ [][Next]_absvars
=============================================================================
