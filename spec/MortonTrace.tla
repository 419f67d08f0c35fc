---------------------------- MODULE MortonTrace ----------------------------
(* Validates location words computed by the real code: by the encoder itself, stored by
   nodeindex, and put into ways by rewritenodes.  An item is <<lon, lat, word, lon', lat'>>:
   the position asked for, four limbs, and the position the real decoder gives back. *)
EXTENDS Words, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Init == l = 1
Item(x) == LET w == x[3] IN
    /\ w = Loc(x[1], x[2]) /\ IsNegative(w)
    /\ LonOf(w) = x[1] /\ LatOf(w) = x[2]              \* the word determines the position
    /\ x[4] = x[1] /\ x[5] = x[2]
Batch == /\ l <= Len(Trace) /\ E.ev = "words" /\ l' = l + 1
         /\ E.rc = 0 /\ TRUE = (\A i \in 1..Len(E.items) : Item(E.items[i]))
\* the table of the spreading, printed for the sweep, and what the sweep reports
Sweep == l <= Len(Trace) /\ E.ev = "sweep" /\ E.bad = 0 /\ E.n > 0 /\ l' = l + 1
Next == Batch \/ Sweep
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
