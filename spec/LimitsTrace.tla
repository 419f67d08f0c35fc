----------------------------- MODULE LimitsTrace -----------------------------
(* What the real encoders and tools do with values at the limits of the index formats.
     pack items     <<kind, x, y, taken, x', y'>>: kind "co" (count, offset) or "wi" (way id, offset); words of four limbs;
                    taken: a word was made, from which x' and y' were read back
     span n rc at   nodeindex over a run of n consecutive ids; at: <<lon, lat, word>> of nodes looked up in the result
     way fits rc found   wayindex over a way whose id fits or not; found: it is in the index, with its locations
     member known got want   relindex for a member; known: such a way is in the index; numbers of locations
     far rc         wayindex over more location data than an offset can address *)
EXTENDS Words, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Init == l = 1
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
\* w < 2^(16 * (n - 1) + k)
Below(w, n, k) == (\A i \in (n + 1)..4 : w[i] = 0) /\ w[n] < 2^k
Fits(kind, x, y) == IF kind = "co" THEN Below(x, 2, 8) /\ Below(y, 3, 8) ELSE Below(x, 2, 15) /\ Below(y, 3, 1)
Item(x) == IF Fits(x[1], x[2], x[3]) THEN x[4] /\ x[5] = x[2] /\ x[6] = x[3] ELSE ~x[4]
Pack == Ev("pack") /\ TRUE = (\A i \in DOMAIN E.items : Item(E.items[i]))
Node(x) == x[3] = Loc(x[1], x[2])
Span == /\ Ev("span")
        /\ E.n < 2^24 => E.rc = 0
        /\ E.rc = 0 => TRUE = (\A i \in DOMAIN E.at : Node(E.at[i]))
Way == /\ Ev("way")
       /\ E.fits => E.rc = 0
       /\ E.rc = 0 => E.found
Member == Ev("member") /\ E.rc = 0 /\ E.got = (IF E.known THEN E.want ELSE 0)
Far == Ev("far") /\ E.rc # 0
Next == Pack \/ Span \/ Way \/ Member \/ Far
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
