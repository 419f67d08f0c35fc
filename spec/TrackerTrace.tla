---------------------------- MODULE TrackerTrace ----------------------------
(* Histories of the real list of workers and the real display.  Events of part k:
     start ws               nothing runs, the workers may be any of ws
     track w / tracked w    the call which enters w in the list begins / is over
     untrack w / untracked w
     refresh / shown shown  a refresh of the display begins / is over and shows these lines
   (a hang, or two unsynchronised accesses, are no action)
   The judgement is Tracker!Faithful. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, in, maybe, looking, must, may
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1 /\ in = {} /\ maybe = {} /\ looking = FALSE /\ must = {} /\ may = {}
Start == /\ Ev("start")
         /\ in' = {} /\ maybe' = {} /\ looking' = FALSE /\ must' = {} /\ may' = {}
Track == /\ Ev("track")
         /\ maybe' = maybe \cup {E.w}
         /\ may' = may \cup {E.w}
         /\ UNCHANGED <<in, looking, must>>
Tracked == Ev("tracked") /\ in' = in \cup {E.w} /\ UNCHANGED <<maybe, looking, must, may>>
Untrack == Ev("untrack") /\ in' = in \ {E.w} /\ must' = must \ {E.w} /\ UNCHANGED <<maybe, looking, may>>
Untracked == Ev("untracked") /\ maybe' = maybe \ {E.w} /\ UNCHANGED <<in, looking, must, may>>
Refresh == /\ Ev("refresh") /\ looking' = TRUE
           /\ must' = in /\ may' = maybe
           /\ UNCHANGED <<in, maybe>>
Shown == /\ Ev("shown") /\ looking
         /\ \E s \in {{E.shown[i] : i \in DOMAIN E.shown}} :
              /\ must \subseteq s
              /\ s \subseteq may
              /\ Cardinality(s) = Len(E.shown)
         /\ looking' = FALSE
         /\ UNCHANGED <<in, maybe, must, may>>
Next == Start \/ Track \/ Tracked \/ Untrack \/ Untracked \/ Refresh \/ Shown
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
