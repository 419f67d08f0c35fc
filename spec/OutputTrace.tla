---------------------------- MODULE OutputTrace ----------------------------
(* Real runs of the tools with failing file operations.  Events of case k:
     start k fault            fault: "none", "benign" (short writes which can be continued), "fault"
     op k op f arg got ok at  an operation on a file the tool writes, as the tool saw it
     end k rc                 rc 0 = success
     result k whole           the output has exactly the bytes of an undisturbed run
   Removing a file may fail (nothing is lost by it). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, st, fault, failed, rc
vars == <<l, k, st, fault, failed, rc>>
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1 /\ k' = E.k
Init == l = 1 /\ k = 0 /\ st = "idle" /\ fault = "" /\ failed = FALSE /\ rc = 0
Start == Ev("start") /\ st = "idle" /\ st' = "run" /\ fault' = E.fault /\ failed' = FALSE /\ rc' = 0
Op == /\ Ev("op") /\ st = "run" /\ E.k = k
      /\ failed' = (failed \/ (~E.ok /\ E.op \notin {"remove"}))
      /\ UNCHANGED <<st, fault, rc>>
End == /\ Ev("end") /\ st = "run" /\ E.k = k /\ st' = "ended" /\ rc' = E.rc
       /\ failed => E.rc # 0
       /\ fault = "none" => E.rc = 0
       /\ UNCHANGED <<fault, failed>>
\* Honest
Result == Ev("result") /\ st = "ended" /\ E.k = k /\ st' = "idle" /\ (rc = 0 => E.whole) /\ UNCHANGED <<fault, failed, rc>>
Next == Start \/ Op \/ End \/ Result
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
