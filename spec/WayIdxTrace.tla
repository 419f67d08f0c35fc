---------------------------- MODULE WayIdxTrace ----------------------------
(* Validates lookups made in way indexes which the real wayindex built from real files
   against the contract WayIdx proves for its index: every way is found in exactly one
   of the passes, with its references less consecutive repeats, and nothing else is
   found.  CONSTS, one line per file: ways[i] = references of the i-th way (interned
   values), q[j] = which way the j-th queried id is, 0 = none. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)

Dedup(s) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ acc[Len(acc)] = x THEN acc ELSE Append(acc, x), <<>>, s)
Exp == [f \in DOMAIN Conf |-> [i \in DOMAIN Conf[f].ways |-> Dedup(Conf[f].ways[i])]]

VARIABLES l, k, st,
          n, p,      \* pass p of n is next
          seen,      \* ways found in earlier passes of this n
          mine       \* ways found in the last pass
vars == <<l, k, st, n, p, seen, mine>>
E == Trace[l]
C == Conf[k]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1

Init == l = 1 /\ k = 0 /\ st = "closed" /\ n = 0 /\ p = 0 /\ seen = {} /\ mine = {}

\* the tool must succeed on a well formed file
Build == /\ Ev("build") /\ st = "closed" /\ n = p /\ E.k = k + 1 /\ k' = k + 1
         /\ E.rc = 0 /\ st' = "built" /\ n' = 0 /\ p' = 0 /\ seen' = {} /\ mine' = {}
Open == Ev("open") /\ st = "built" /\ st' = "open" /\ UNCHANGED <<k, n, p, seen, mine>>

Asked == {C.q[j] : j \in 1..Len(C.q)} \ {0}
\* res[j] is <<>> (absent) or <<locations>>
Right(res, q, found) ==
    \A j \in 1..Len(res) :
        IF q[j] \in found THEN res[j] = <<Exp[k][q[j]]>> ELSE res[j] = <<>>

Pass == /\ Ev("pass") /\ st = "open"
        /\ IF p = n THEN E.p = 0 /\ E.n >= 1 ELSE E.n = n /\ E.p = p
        /\ n' = E.n /\ p' = E.p + 1
        /\ Len(E.res) = Len(C.q)
        /\ mine' = {C.q[j] : j \in {i \in 1..Len(E.res) : E.res[i] # <<>>}}
        /\ LET before == IF p = n THEN {} ELSE seen
           IN /\ 0 \notin mine' /\ mine' \cap before = {}
              /\ seen' = before \cup mine'
              /\ (E.p + 1 = E.n) => seen' = Asked
        /\ TRUE = Right(E.res, C.q, mine')
        /\ UNCHANGED <<k, st>>

Chain == /\ Ev("chain") /\ st = "open" /\ E.n = n /\ E.p + 1 = p
         /\ TRUE = Right(E.res, [j \in 1..Len(E.qs) |-> C.q[E.qs[j] + 1]], mine)
         /\ UNCHANGED <<k, st, n, p, seen, mine>>

Closed == Ev("closed") /\ st = "open" /\ p = n /\ st' = "closed" /\ UNCHANGED <<k, n, p, seen, mine>>

Next == Build \/ Open \/ Pass \/ Chain \/ Closed
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Sane == mine \subseteq seen /\ p <= n
=============================================================================
