---------------------------- MODULE NodeIdxTrace ----------------------------
(* Validates lookups made in node indexes which the real nodeindex built from real
   files, against the abstraction NodeIdx proves for its detailed index: pass p of
   n answers exactly the nodes of an interval of the file, the intervals of the n
   passes follow one another and cover the file, and every answer is the location
   of the node asked for.
   CONSTS, one line per file: nodes[i] = <<lon, lon', lat, lat'>> is the position of
   the i-th node (two candidates when the file's granularity does not give whole
   1e-7 degrees), q[j] = position in the file of the j-th queried id, 0 = no node.
   Share = "yes" additionally demands that a pass covers at most an even share of
   the locations plus one element. *)
EXTENDS Words, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)
Share == IOEnv.SHARE = "yes"

VARIABLES l,       \* position in the trace
          k,       \* current file
          st,      \* "none" | "built" | "open" | "closed"
          n, p,    \* pass p of n is next
          from,    \* nodes 1..from were covered by earlier passes of this n
          mine,    \* interval <<lo, hi>> of the last pass seen
          total, big
vars == <<l, k, st, n, p, from, mine, total, big>>

E == Trace[l]
C == Conf[k]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1

Init == l = 1 /\ k = 0 /\ st = "closed" /\ n = 0 /\ p = 0 /\ from = 0 /\ mine = <<0, 0>> /\ total = 0 /\ big = 0

\* the index was built: the tool must succeed on a well formed file
File == /\ Ev("file") /\ st = "closed" /\ n = p
        /\ k' = k + 1 /\ E.k = k + 1
        /\ Conf[k+1].rc = 0
        /\ st' = "built" /\ n' = 0 /\ p' = 0 /\ from' = 0 /\ mine' = <<0, 0>> /\ total' = 0 /\ big' = 0

Open == /\ Ev("open") /\ st = "built" /\ st' = "open" /\ total' = E.locs
        /\ UNCHANGED <<k, n, p, from, mine, big>>

Right(ans, pos) ==       \* ans is the location of node pos
    LET c == C.nodes[pos]
    IN \E lon \in {c[1], c[2]}, lat \in {c[3], c[4]} : ans = Loc(lon, lat)

Answers(res, q, lo, hi) ==
    \A j \in 1..Len(res) :
        IF q[j] > lo /\ q[j] <= hi THEN Len(res[j]) = 4 /\ Right(res[j], q[j])
        ELSE res[j] = <<>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Pass == /\ Ev("pass") /\ st = "open"
        /\ IF p = n THEN E.p = 0 /\ E.n >= 1 ELSE E.n = n /\ E.p = p
        /\ n' = E.n /\ p' = E.p + 1
        /\ LET lo == IF p = n THEN 0 ELSE from
               found == {C.q[j] : j \in {i \in 1..Len(E.res) : E.res[i] # <<>>}}
               all == {C.q[j] : j \in 1..Len(C.q)}
               hi == IF E.p + 1 = E.n THEN Max(all \cup {0}) ELSE Max(found \cup {lo})
           IN /\ Len(E.res) = Len(C.q)
              /\ TRUE = Answers(E.res, C.q, lo, hi)
              /\ from' = hi /\ mine' = <<lo, hi>>
        /\ big' = IF E.n = 1 THEN E.big ELSE big
        /\ (Share /\ big' > 0) => E.locs <= ((total + E.n - 1) \div E.n) + big'
        /\ UNCHANGED <<k, st, total>>

Chain == /\ Ev("chain") /\ st = "open" /\ E.n = n /\ E.p + 1 = p
         /\ TRUE = Answers(E.res, [j \in 1..Len(E.qs) |-> C.q[E.qs[j] + 1]], mine[1], mine[2])
         /\ UNCHANGED <<k, st, n, p, from, mine, total, big>>

Closed == Ev("closed") /\ st = "open" /\ p = n /\ st' = "closed" /\ UNCHANGED <<k, n, p, from, mine, total, big>>

Next == File \/ Open \/ Pass \/ Chain \/ Closed
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
CoverMonotone == mine[1] <= mine[2] /\ from <= Len(IF k = 0 THEN <<>> ELSE C.nodes)
=============================================================================
