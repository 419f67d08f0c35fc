--------------------------- MODULE PipelineTrace ---------------------------
(* Validates what workers and writer of a real pbf.ProcessFileAsync run observed
   against PipelineAbs.  One line of the trace is one abstract action:
     recv w i ok | send w i | write i ok | wexit w ok | wrexit ok | cancel | done at max
   `ok` reports that type and content of the block were those of block i of the
   file (and, on exit, that every block seen was still readable).  Long runs merge
   consecutive events: recvs lo hi, sends lo hi, writes lo hi.
   There is no action for "hang" and "crash". *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)[1]

VARIABLES l, run, given, working, queued, written, live, writing, stop, over
B == Conf[run].b
W == Conf[run].w
NilWriter == Conf[run].nilwriter

A == INSTANCE PipelineAbs

tvars == <<l, run, given, working, queued, written, live, writing, stop, over>>
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1 /\ run' = run

\* every run starts afresh
Start ==
    /\ l <= Len(Trace) /\ E.ev = "start" /\ l' = l + 1
    /\ run = 0 \/ over
    /\ run' = run + 1 /\ E.run = run'
    /\ given' = {} /\ working' = {} /\ queued' = {} /\ written' = 0
    /\ live' = 1..Conf[run'].w /\ writing' = ~Conf[run'].nilwriter
    /\ stop' = FALSE /\ over' = FALSE

Init ==
    /\ l = 1 /\ run = 0
    /\ given = {} /\ working = {} /\ queued = {} /\ written = 0
    /\ live = {} /\ writing = FALSE /\ stop = FALSE /\ over = FALSE

Recv == Ev("recv") /\ E.ok /\ E.w \in live /\ A!Give(E.i)
Send == Ev("send") /\ A!SendOn(E.i)
Write == Ev("write") /\ E.ok /\ E.i = written /\ A!WriteNext

\* without a writer a block is consumed where it was received
Consume == Ev("consume") /\ NilWriter /\ E.i \in working
           /\ working' = working \ {E.i}
           /\ UNCHANGED <<given, queued, written, live, writing, stop, over>>

\* a worker may see the end of the input before another worker has logged its last
\* receive, so that everything was handed out is only required at the end (Over)
WExit == Ev("wexit") /\ E.ok /\ E.w \in live
         /\ live' = live \ {E.w}
         /\ UNCHANGED <<given, working, queued, written, writing, stop, over>>
WrExit == Ev("wrexit") /\ E.ok /\ A!Finish
Cancel == Ev("cancel") /\ A!Stop
Over ==
    /\ Ev("done") /\ ~over /\ ~writing /\ live = {} /\ working = {}
    /\ ~stop => given = 0..B-1
    /\ ~stop => E.at = E.max
    /\ E.max = Conf[run].size /\ E.at <= E.max
    /\ IF NilWriter THEN stop => given = 0..(Cardinality(given)-1)
                    ELSE given = 0..(written-1)
    /\ over' = TRUE
    /\ UNCHANGED <<given, working, queued, written, live, writing, stop>>

\* merged events of long runs: the sets are intervals, so keep them as given/queued
Recvs == Ev("recvs") /\ E.ok /\ (E.lo..E.hi) \cap given = {} /\ E.hi < B
         /\ given' = given \cup (E.lo..E.hi)
         /\ UNCHANGED <<working, queued, written, live, writing, stop, over>>
Writes == Ev("writes") /\ E.ok /\ E.lo = written /\ (E.lo..E.hi) \subseteq given
          /\ written' = E.hi + 1
          /\ UNCHANGED <<given, working, queued, live, writing, stop, over>>

Next == Start \/ Recv \/ Send \/ Write \/ Consume \/ WExit \/ WrExit \/ Cancel \/ Over \/ Recvs \/ Writes

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)

\* invariants of the contract, evaluated after every observed event
Conserved == /\ working \cap queued = {} /\ working \cup queued \subseteq given
Prefix == 0..(written-1) \subseteq given
=============================================================================
