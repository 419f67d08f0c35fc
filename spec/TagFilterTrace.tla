--------------------------- MODULE TagFilterTrace ---------------------------
(* Validates runs of the real tagfilter against TagFilter's contract.
   CONSTS, one line per file: s = the strings which occur; in = the blobs,
   <<1, h>> for one which is not OSMData (h its content), <<2, entities>> otherwise.
   Entities: <<1, id, lons, lats, tags>>, <<2, id, tags, refs>>, <<3, id, tags, members>>,
   tags = <<<<key, value>>...>>, everything interned; lons and lats of the input are the
   acceptable positions (the exact one and its neighbours at 1e-7 degrees), of the output
   the position itself. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
TF == INSTANCE TagFilter WITH Keys <- {}, MaxEntities <- 0, MaxBlocks <- 0, MaxTags <- 0,
      file <- <<>>, at <- 1, done <- FALSE, out <- <<>>, filler <- 0

Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)

\* which strings are kept as keys of a node
Kept == [f \in DOMAIN Conf |-> [i \in DOMAIN Conf[f].s |-> TF!KeepKey(Conf[f].s[i])]]
KeptTags(f, tags) == SelectSeq(tags, LAMBDA t : Kept[f][t[1]])
OfKind(b, t) == SelectSeq(b, LAMBDA e : e[1] = t)
Expect(f, b) ==
    LET ns == OfKind(b, 1)
        fs == [i \in 1..Len(ns) |-> [ns[i] EXCEPT ![5] = KeptTags(f, @)]]
    IN SelectSeq(fs, LAMBDA e : e[5] # <<>>) \o OfKind(b, 2) \o OfKind(b, 3)
\* the blobs to be expected in the output
Exp == [f \in DOMAIN Conf |->
    SelectSeq([i \in DOMAIN Conf[f].in |-> IF Conf[f].in[i][1] = 1 THEN Conf[f].in[i] ELSE <<2, Expect(f, Conf[f].in[i][2])>>],
              LAMBDA b : b[1] = 1 \/ b[2] # <<>>)]

VARIABLES l, k, st, next
vars == <<l, k, st, next>>
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1 /\ k = 0 /\ st = "idle" /\ next = 1

Run == Ev("run") /\ st = "idle" /\ E.rc = 0 /\ k' = E.k /\ st' = "reading" /\ next' = 1

SameTags(a, b) == Len(a) = Len(b) /\ ToSet(a) = ToSet(b)
EntityOK(i, o) ==
    IF i[1] # o[1] THEN FALSE
    ELSE IF i[1] = 1 THEN o[2] = i[2] /\ Contains(i[3], o[3]) /\ Contains(i[4], o[4]) /\ SameTags(i[5], o[5])
    ELSE o[2] = i[2] /\ SameTags(i[3], o[3]) /\ o[4] = i[4]
\* one blob of the output: E.b
\* (within a block nodes, ways and relations keep their order; \E binds a value once)
ByKind(b) == OfKind(b, 1) \o OfKind(b, 2) \o OfKind(b, 3)
Same(x, o) == Len(x) = Len(o) /\ TRUE = (\A j \in 1..Len(o) : EntityOK(x[j], o[j]))
Blob == /\ Ev("blob") /\ st = "reading" /\ next <= Len(Exp[k])
        /\ \E x \in {Exp[k][next]} : \E b \in {E.b} :
              /\ x[1] = b[1]
              /\ IF x[1] = 1 THEN x[2] = b[2] ELSE \E o \in {ByKind(b[2])} : Same(x[2], o)
        /\ next' = next + 1 /\ UNCHANGED <<k, st>>
EndRun == Ev("endrun") /\ st = "reading" /\ next = Len(Exp[k]) + 1 /\ st' = "idle" /\ UNCHANGED <<k, next>>
Next == Run \/ Blob \/ EndRun
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Sane == next >= 1 /\ k <= Len(Conf)
=============================================================================
