------------------------------ MODULE CutTrace ------------------------------
(* What the workers and the writer of a real tool did in a run which was cancelled (or not), and
   the file it has left.  CONSTS, one line per run: b, outs[i+1] = the units which block i alone
   becomes, free = the content of an unfinished file is not looked at (C15 does).
   Events:  start k | in i (a block reaches the tool's worker) | out i (what it made is sent on)
            cancel | done (processing has ended) | file u (the units of the file; 0 is none)
   There is no action for a hang or a crash. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)
VARIABLES l, k, given, sent, stop, phase
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1 /\ k = 0 /\ given = {} /\ sent = {} /\ stop = FALSE /\ phase = "end"

Start == /\ Ev("start") /\ phase = "end" /\ k' = E.k
         /\ given' = {} /\ sent' = {} /\ stop' = FALSE /\ phase' = "run"
In == /\ Ev("in") /\ phase = "run" /\ E.i \in (0..Conf[k].b-1) \ given
      /\ given' = given \cup {E.i} /\ UNCHANGED <<k, sent, stop, phase>>
OutEv == /\ Ev("out") /\ phase = "run" /\ E.i \in given \ sent
         /\ sent' = sent \cup {E.i} /\ UNCHANGED <<k, given, stop, phase>>
Cancel == /\ Ev("cancel") /\ stop' = TRUE /\ UNCHANGED <<k, given, sent, phase>>
Done == /\ Ev("done") /\ phase = "run" /\ sent = given
        /\ given = 0..(Cardinality(given)-1)
        /\ ~stop => given = 0..Conf[k].b-1
        /\ phase' = "file" /\ UNCHANGED <<k, given, sent, stop>>

RECURSIVE Flat(_, _)
Flat(o, n) == IF n = 0 THEN <<>> ELSE Flat(o, n-1) \o o[n]
File == /\ Ev("file") /\ phase = "file"
        /\ TRUE = (Conf[k].free \/ \E n \in (IF stop THEN 0..Cardinality(given) ELSE {Conf[k].b}) : E.u = Flat(Conf[k].outs, n))
        /\ phase' = "end" /\ UNCHANGED <<k, given, sent, stop>>
Next == Start \/ In \/ OutEv \/ Cancel \/ Done \/ File
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
