----------------------------- MODULE WireTrace -----------------------------
(* Validates what the real encoders and decoders of internal/pb do, case by case. *)
EXTENDS Wire, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Init == l = 1
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
All(Ok(_)) == TRUE = (\A i \in 1..Len(E.cases) : Ok(E.cases[i]))

\* <<values, bytes, what was in the buffer before is intact>>
Enc == Ev("enc") /\ LET OK(c) == c[3] = 1 /\ c[2] = Encode(E.f, c[1]) IN All(OK)
\* <<bytes, values, bytes consumed>>
Dec == Ev("dec") /\ LET OK(c) == c[2] = Decode(E.f, c[1]) /\ c[3] = Len(c[1]) IN All(OK)
\* <<bytes, word or <<>> when it refused, bytes consumed>>: any bytes at all
Raw == Ev("raw") /\ LET OK(c) == LET v == VarintAt(c[1], 1) IN
                          IF v[1] = "bad" THEN c[2] = <<>> ELSE c[2] = v[2] /\ c[3] = v[3] - 1 IN All(OK)
\* <<id, type, word>>
Key == Ev("key") /\ LET OK(c) == c[3] = Small(c[1] * 8 + c[2]) IN All(OK)
\* <<id, word, bytes>>: a varint field
Field == Ev("field") /\ LET OK(c) == c[3] = Varint(Small(c[1] * 8)) \o Varint(c[2]) IN All(OK)
\* <<key or <<>>, length, bytes in front of the content, all bytes, content intact>>
Blob == Ev("bytes") /\ LET OK(c) == /\ c[3] = (IF c[1] = <<>> THEN <<>> ELSE Varint(Small(c[1][1] * 8 + 2))) \o Varint(Small(c[2]))
                                     /\ c[4] = Len(c[3]) + c[2] /\ c[5] = 1 IN All(OK)
\* <<id, limit, length, bytes in front, all bytes, content intact, refused>>: space is reserved
\* for a length below the limit, which may be padded
Embed == Ev("embed") /\ LET OK(c) == IF c[3] >= c[2] THEN c[7] = 1
                                      ELSE LET k == Varint(Small(c[1] * 8 + 2))  n == Len(k)  v == VarintAt(c[4], n + 1)
                                           IN /\ c[7] = 0 /\ c[6] = 1 /\ SubSeq(c[4], 1, n) = k
                                              /\ v[1] = "ok" /\ v[2] = Small(c[3]) /\ v[3] = Len(c[4]) + 1
                                              /\ c[5] = Len(c[4]) + c[3] IN All(OK)
\* <<bytes, where reading starts, content, position after>>
Skip == Ev("skip") /\ LET OK(c) == LET v == VarintAt(c[1], c[2] + 1)  n == v[2][1] IN
                           /\ c[3] = SubSeq(c[1], v[3], v[3] + n - 1) /\ c[4] = v[3] - 1 + n IN All(OK)
Next == Enc \/ Dec \/ Raw \/ Key \/ Field \/ Blob \/ Embed \/ Skip
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
