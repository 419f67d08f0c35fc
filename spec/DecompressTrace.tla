-------------------------- MODULE DecompressTrace --------------------------
(* Validates the files written by the real decompress against Decompress's Prefix and Complete.
   CONSTS, one line per file: in = <<<<type, payload>>...>>, interned. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)

VARIABLES l, k, st, next
vars == <<l, k, st, next>>
E == Trace[l]
C == Conf[k]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1 /\ k = 0 /\ st = "idle" /\ next = 1
Run == Ev("run") /\ st = "idle" /\ E.rc = 0 /\ k' = E.k /\ st' = "reading" /\ next' = 1
Blob == /\ Ev("blob") /\ st = "reading" /\ next <= Len(C.in)
        /\ E.type = C.in[next][1] /\ E.payload = C.in[next][2] /\ E.enc = "raw"
        /\ next' = next + 1 /\ UNCHANGED <<k, st>>
EndRun == Ev("endrun") /\ st = "reading" /\ next = Len(C.in) + 1 /\ st' = "idle" /\ UNCHANGED <<k, next>>
Next == Run \/ Blob \/ EndRun
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Sane == next >= 1 /\ k <= Len(Conf)
=============================================================================
