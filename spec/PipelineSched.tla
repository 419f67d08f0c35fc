--------------------------- MODULE PipelineSched ---------------------------
(* Every externally controllable order of receives, sends, writes and the cancel
   that Pipeline allows, printed as a schedule for the gated driver.  Internal
   steps are taken eagerly; workers are used in order (they are symmetric). *)
EXTENDS Pipeline, Json

VARIABLE h

Used == {h[i].w : i \in {j \in 1..Len(h) : h[j].op = "recv"}}
Fresh(w) == w \in Used \/ \A v \in Workers : v < w => v \in Used

Eager == Load \/ CloseIn \/ CloseReorder \/ CloseOut \/ Unmap \/ Done
         \/ Written \/ ReorderExit \/ WriterExit \/ \E w \in Workers : WorkerExit(w)

Log(op, w) == h' = Append(h, [op |-> op, w |-> w])

SInit == Init /\ h = <<>>
SNext ==
    IF ENABLED Eager THEN Eager /\ UNCHANGED h
    ELSE \/ \E w \in Workers : (Fresh(w) /\ Recv(w) /\ Log("recv", w)) \/ (Send(w) /\ Log("send", w))
         \/ Write /\ Log("write", 0)
         \/ Cancel /\ Log("cancel", 0)
         \/ GiveUp /\ Log("giveup", 0)

Emit == fin => PrintT("SCN " \o ToJson([b |-> B, w |-> W, steps |-> h, n |-> Len(out)]))
=============================================================================
