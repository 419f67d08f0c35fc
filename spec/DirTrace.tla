------------------------------ MODULE DirTrace ------------------------------
(* Snapshots of directories around real runs, as Dir has it.  A snapshot is a sequence of <<name, digest>>.
     begin files            what is there first
     touch files            what is there after inputs were exchanged between runs
     run   rc must outs after   outs: <<name, digest>>, the digest "" if it is not known beforehand; must: the run has to succeed
   slack: an operation failed, which may have been the removal of a file
   litter: names which runs that failed have left; a run may overwrite or remove them. *)
EXTENDS Sequences, TLC, Json, IOUtils, Integers
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dir, litter
vars == <<l, dir, litter>>
E == Trace[l]
Ev(x) == l <= Len(Trace) /\ E.ev = x /\ l' = l + 1
Set(s) == {s[i] : i \in 1..Len(s)}
Named(s) == {x[1] : x \in s}
Init == l = 1 /\ dir = {} /\ litter = {}
Begin == Ev("begin") /\ dir' = Set(E.files) /\ litter' = {}
Run == /\ Ev("run")
       /\ E.must => E.rc = 0
       /\ \E after \in {Set(E.after)}, outs \in {Named(Set(E.outs))} :
          LET kept == {x \in dir : x[1] \notin outs /\ x[1] \notin litter}
          IN /\ kept \subseteq after                                       \* what is not its own is as before
             /\ IF E.rc = 0
                THEN /\ \A i \in 1..Len(E.outs) : IF E.outs[i][2] = "" THEN E.outs[i][1] \in Named(after) ELSE E.outs[i] \in after
                     /\ E.slack \/ \A x \in after : x[1] \in outs \/ x \in dir         \* nothing else is new or changed
                     /\ litter' = ((litter \cup (Named(after) \ Named(dir))) \ outs) \cap Named(after)
                ELSE litter' = (litter \cup (Named(after) \ Named(dir))) \ outs
             /\ dir' = after
\* inputs are exchanged
Touch == Ev("touch") /\ dir' = Set(E.files) /\ UNCHANGED litter
Next == Begin \/ Touch \/ Run
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
