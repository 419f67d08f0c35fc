----------------------------- MODULE TrackerScen -----------------------------
(***************************************************************************)
(* Schedules of workers and display for the real code: behaviours of       *)
(* Tracker with at most MaxPre changes of process at a point where the     *)
(* process could have gone on, printed as the sequence of processes.       *)
(***************************************************************************)
EXTENDS Tracker, Json

CONSTANT MaxPre
VARIABLES hist, pre

ScenInit == Init /\ hist = <<>> /\ pre = 0

Id(p) == p
StepOf(p) == IF p = "r" THEN RefreshStep ELSE WorkerStep(p)
Procs == Workers \cup {"r"}
Last == IF hist = <<>> THEN "none" ELSE hist[Len(hist)]

ScenNext ==
  \E p \in Procs :
    /\ StepOf(p)
    /\ pre' = IF Last \in Procs /\ Last # p /\ ENABLED StepOf(Last) THEN pre + 1 ELSE pre
    /\ pre' <= MaxPre
    /\ hist' = Append(hist, p)

Done == (\A w \in Workers : wpc[w] = "out") /\ rn = NRefresh
Emit == Done => PrintT("SCN " \o ToJson(hist))
=============================================================================
