---------------------------- MODULE DeterminTrace ----------------------------
(* Runs of the real tools.  out g rc d: case g (a tool with its settings on an input) ended
   with rc and left output d. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ref
E == Trace[l]
Init == l = 1 /\ ref = [g \in {} |-> ""]
Out == /\ l <= Len(Trace) /\ E.ev = "out" /\ E.rc = 0 /\ l' = l + 1
       /\ IF E.g \in DOMAIN ref THEN ref[E.g] = E.d /\ UNCHANGED ref ELSE ref' = ref @@ (E.g :> E.d)
Next == Out
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
