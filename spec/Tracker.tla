------------------------------- MODULE Tracker -------------------------------
(***************************************************************************)
(* The list of running workers and the display of it.                      *)
(*                                                                         *)
(* A worker enters itself in the list when it starts and removes itself    *)
(* when it ends; both change the list under a lock and then increase a     *)
(* version.  The display looks at the version first, does nothing when it  *)
(* is the one it saw last, and else copies the list (element by element,   *)
(* under the lock) and shows a line for every entry.                       *)
(*                                                                         *)
(* The property is about whole refreshes: a worker which was entered       *)
(* before a refresh began and stays until it has ended is shown, one that  *)
(* was gone before it began is not, and nothing is shown twice; so when no *)
(* worker comes or goes any more the next refresh shows exactly the        *)
(* running ones.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Workers,      \* the workers
          NRefresh,     \* how often the display refreshes
          VersionFirst, \* wrong design: version increased before the change
          LateVersion,  \* wrong design: display reads the version after the list
          NoLock,       \* wrong design: display copies the list without the lock
          NoIncOnEnd    \* wrong design: the end of a worker leaves the version as it is

VARIABLES list, version, lock,
          wpc, wcur,        \* worker: program counter; (shifting position while removing)
          rpc, rn, seen, new, copy, shown,
          must, may         \* of the refresh in progress

vars == <<list, version, lock, wpc, wcur, rpc, rn, seen, new, copy, shown, must, may>>

Init == /\ list = <<>> /\ version = 0 /\ lock = "free"
        /\ wpc = [w \in Workers |-> "idle"] /\ wcur = [w \in Workers |-> 0]
        /\ rpc = "idle" /\ rn = 0 /\ seen = 0 /\ new = 0 /\ copy = <<>> /\ shown = <<>>
        /\ must = {} /\ may = {}

\* pcs of a worker: idle tlock tadd tinc in ulock urm uinc out
In(w)      == wpc[w] = "in"
MaybeIn(w) == wpc[w] \notin {"idle", "out"}

Goto(w, p) == wpc' = [wpc EXCEPT ![w] = p]
\* bookkeeping of the refresh in progress: called workers may be shown, ending ones need not be
Seen(w) == /\ may' = IF rpc = "idle" THEN may ELSE may \cup {w}
           /\ UNCHANGED must
Ends(w) == /\ must' = must \ {w}
           /\ UNCHANGED may

Track(w) == /\ wpc[w] = "idle"
            /\ Goto(w, IF VersionFirst THEN "tinc" ELSE "tlock")
            /\ Seen(w)
            /\ UNCHANGED <<list, version, lock, wcur, rpc, rn, seen, new, copy, shown>>
Untrack(w) == /\ wpc[w] = "in"
              /\ Goto(w, IF VersionFirst THEN "uinc" ELSE "ulock")
              /\ Ends(w)
              /\ UNCHANGED <<list, version, lock, wcur, rpc, rn, seen, new, copy, shown>>
Lock(w) == /\ wpc[w] \in {"tlock", "ulock"} /\ lock = "free"
           /\ lock' = "W"
           /\ Goto(w, IF wpc[w] = "tlock" THEN "tadd" ELSE "urm")
           /\ UNCHANGED <<list, version, wcur, rpc, rn, seen, new, copy, shown, must, may>>
Add(w) == /\ wpc[w] = "tadd"
          /\ list' = Append(list, w)
          /\ lock' = "free"
          /\ Goto(w, IF VersionFirst THEN "in" ELSE "tinc")
          /\ UNCHANGED <<version, wcur, rpc, rn, seen, new, copy, shown, must, may>>
\* removal shifts the rest down one by one, then shortens the list
Remove(w) == /\ wpc[w] = "urm"
             /\ LET p == IF wcur[w] > 0 THEN wcur[w] ELSE CHOOSE i \in DOMAIN list : list[i] = w
                IN IF p < Len(list)
                   THEN /\ list' = [list EXCEPT ![p] = list[p + 1]]
                        /\ wcur' = [wcur EXCEPT ![w] = p + 1]
                        /\ UNCHANGED <<lock, wpc>>
                   ELSE /\ list' = SubSeq(list, 1, Len(list) - 1)
                        /\ wcur' = [wcur EXCEPT ![w] = 0]
                        /\ lock' = "free"
                        /\ Goto(w, IF VersionFirst \/ NoIncOnEnd THEN "out" ELSE "uinc")
             /\ UNCHANGED <<version, rpc, rn, seen, new, copy, shown, must, may>>
Inc(w) == /\ wpc[w] \in {"tinc", "uinc"}
          /\ version' = version + 1
          /\ Goto(w, CASE wpc[w] = "tinc" /\ ~VersionFirst -> "in"
                       [] wpc[w] = "tinc" /\ VersionFirst  -> "tlock"
                       [] wpc[w] = "uinc" /\ ~VersionFirst -> "out"
                       [] OTHER                            -> "ulock")
          /\ UNCHANGED <<list, lock, wcur, rpc, rn, seen, new, copy, shown, must, may>>

WorkerStep(w) == Track(w) \/ Untrack(w) \/ Lock(w) \/ Add(w) \/ Remove(w) \/ Inc(w)

\* ---------------------------------------------------------------- display
RStart == /\ rpc = "idle" /\ rn < NRefresh
          /\ rpc' = IF LateVersion THEN "rlock" ELSE "read"
          /\ must' = {w \in Workers : In(w)}
          /\ may' = {w \in Workers : MaybeIn(w)}
          /\ UNCHANGED <<list, version, lock, wpc, wcur, rn, seen, new, copy, shown>>
RRead == /\ rpc = "read"
         /\ IF version = seen /\ ~LateVersion
            THEN rpc' = "end" /\ UNCHANGED new
            ELSE rpc' = (IF LateVersion THEN "show" ELSE "rlock") /\ new' = version
         /\ UNCHANGED <<list, version, lock, wpc, wcur, rn, seen, copy, shown, must, may>>
RLock == /\ rpc = "rlock" /\ (lock = "free" \/ NoLock)
         /\ lock' = IF NoLock THEN lock ELSE "R"
         /\ rpc' = "copy" /\ copy' = <<>>
         /\ UNCHANGED <<list, version, wpc, wcur, rn, seen, new, shown, must, may>>
RCopy == /\ rpc = "copy"
         /\ IF Len(copy) < Len(list)
            THEN /\ copy' = Append(copy, list[Len(copy) + 1])
                 /\ UNCHANGED <<lock, rpc>>
            ELSE /\ lock' = IF NoLock THEN lock ELSE "free"
                 /\ rpc' = IF LateVersion THEN "read" ELSE "show"
                 /\ UNCHANGED copy
         /\ UNCHANGED <<list, version, wpc, wcur, rn, seen, new, shown, must, may>>
RShow == /\ rpc = "show"
         /\ shown' = IF LateVersion /\ new = seen THEN shown ELSE copy
         /\ seen' = new
         /\ rpc' = "end"
         /\ UNCHANGED <<list, version, lock, wpc, wcur, rn, new, copy, must, may>>
REnd == /\ rpc = "end"
        /\ rpc' = "idle" /\ rn' = rn + 1
        /\ must' = {} /\ may' = {}
        /\ UNCHANGED <<list, version, lock, wpc, wcur, seen, new, copy, shown>>
RefreshStep == RStart \/ RRead \/ RLock \/ RCopy \/ RShow \/ REnd

Next == (\E w \in Workers : WorkerStep(w)) \/ RefreshStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------- properties
Elems(s) == {s[i] : i \in DOMAIN s}
\* judged when a refresh ends
Faithful == rpc = "end" => /\ must \subseteq Elems(shown)
                           /\ Elems(shown) \subseteq may
                           /\ Cardinality(Elems(shown)) = Len(shown)
ListOk == lock # "W" => Elems(list) = {w \in Workers : wpc[w] \in {"in", "ulock", "uinc"} \cup (IF VersionFirst THEN {} ELSE {"tinc"})}
                                   \ (IF VersionFirst THEN {} ELSE {w \in Workers : wpc[w] = "uinc"})
TypeOk == lock \in {"free", "W", "R"} /\ rn \in 0..NRefresh
=============================================================================
