------------------------------ MODULE StateLine ------------------------------
(***************************************************************************)
(* One line of the progress display: what a worker (or writer) publishes   *)
(* with single atomic writes and what the display reads in single atomic   *)
(* reads.                                                                  *)
(*                                                                         *)
(* An operation of the worker sets a state, with the block or the counts   *)
(* that belong to it, or adds to a count; the values are written before    *)
(* the state.  The display reads the state first and then the values.  So  *)
(* what a line shows is a state that was current while it was drawn, with  *)
(* values as of when that state was set or later - never older ones.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Zero == [st |-> "waiting", blk |-> 0, a |-> 0, b |-> 0]

\* the fields an operation writes and the state it enters ("" none)
Writes(o) ==
  CASE o.op \in {"decoding", "writing", "index"} -> [blk |-> o.arg]
    [] o.op = "copying"                          -> [b |-> o.arg]
    [] o.op = "working"                          -> [b |-> o.arg, a |-> 0]
    [] OTHER                                     -> [x \in {} |-> 0]
Adds(o) ==
  CASE o.op \in {"advance", "next", "keep", "filler"} -> "a"
    [] o.op = "drop"                                  -> "b"
    [] OTHER                                          -> ""
Enters(o) == IF Adds(o) = "" THEN o.op ELSE ""

\* the state of the line after an operation
After(A, o) ==
  LET W == Writes(o) IN
  [f \in DOMAIN A |->
     CASE f = "st" -> IF Enters(o) = "" THEN A.st ELSE Enters(o)
       [] f # "st" /\ f \in DOMAIN W -> W[f]
       [] f # "st" /\ f = Adds(o) -> A[f] + o.arg
       [] OTHER -> A[f]]

\* what a line must show in a state
Shows(line, st) ==
  CASE line = "tagfilter.writer" -> {"a", "blk"}
    [] line = "tagfilter.worker" /\ st # "waiting" -> {"blk", "a", "b"}
    [] st = "working" -> {"blk", "a", "b"}
    [] st = "copying" -> {"a", "b"}
    [] st \in {"waiting", "locations", "finalizing"} -> {}
    [] OTHER -> {"blk"}

\* seen fits when, of the states As[lo..hi], some has its state and it or later ones its values
Fits(line, seen, As, lo, hi) ==
  \E k \in lo..hi :
     /\ As[k].st = seen.st
     /\ TRUE = (\A f \in Shows(line, seen.st) : \E j \in k..hi : As[j][f] = seen[f])

(***************************************************************************)
(* The design: interleavings of the writes and the reads.                  *)
(***************************************************************************)
CONSTANTS Line,        \* which line
          OpNames,     \* operations of its worker
          NOps, NLooks,
          StateFirst,  \* wrong design: state written before its values
          ValuesFirst  \* wrong design: display reads the values before the state

VARIABLES mem, As, cur, todo, seen, pc, lo, looks
vars == <<mem, As, cur, todo, seen, pc, lo, looks>>

None == [op |-> "", arg |-> 0]
Init == /\ mem = Zero /\ As = <<Zero>> /\ cur = None /\ todo = {}
        /\ seen = Zero /\ pc = "idle" /\ lo = 1 /\ looks = 0

\* todo: fields (and "st") still to be written, "+" for an addition
Call == /\ cur = None /\ Len(As) <= NOps
        /\ \E n \in OpNames :
             LET o == [op |-> n, arg |-> Len(As)] IN
             /\ cur' = o
             /\ As' = Append(As, After(As[Len(As)], o))
             /\ todo' = IF Adds(o) # "" THEN {"+"} ELSE DOMAIN Writes(o) \cup {"st"}
        /\ UNCHANGED <<mem, seen, pc, lo, looks>>
Write == /\ todo # {}
         /\ \E f \in todo :
              /\ f = "st" => (todo = {"st"} \/ (StateFirst /\ "st" \in todo))
              /\ (StateFirst /\ "st" \in todo) => f = "st"
              /\ mem' = IF f = "+" THEN [mem EXCEPT ![Adds(cur)] = @ + cur.arg]
                        ELSE IF f = "st" THEN [mem EXCEPT !.st = Enters(cur)]
                        ELSE [mem EXCEPT ![f] = Writes(cur)[f]]
              /\ todo' = todo \ {f}
              /\ cur' = IF todo' = {} THEN None ELSE cur
         /\ UNCHANGED <<As, seen, pc, lo, looks>>

\* operations completed
Done == IF cur = None THEN Len(As) ELSE Len(As) - 1

Look == /\ pc = "idle" /\ looks < NLooks
        /\ lo' = Done /\ looks' = looks + 1
        /\ pc' = IF ValuesFirst THEN "vals" ELSE "st"
        /\ seen' = Zero
        /\ UNCHANGED <<mem, As, cur, todo>>
ReadSt == /\ pc = "st"
          /\ seen' = [seen EXCEPT !.st = mem.st]
          /\ pc' = IF ValuesFirst THEN "end" ELSE "vals"
          /\ UNCHANGED <<mem, As, cur, todo, lo, looks>>
\* values are read one by one: a, then b, then blk
ReadVal == /\ pc \in {"vals", "b", "blk"}
           /\ LET f == IF pc = "vals" THEN "a" ELSE pc IN
              /\ seen' = [seen EXCEPT ![f] = mem[f]]
              /\ pc' = CASE pc = "vals" -> "b" [] pc = "b" -> "blk" [] OTHER -> IF ValuesFirst THEN "st" ELSE "end"
           /\ UNCHANGED <<mem, As, cur, todo, lo, looks>>
End == /\ pc = "end" /\ pc' = "idle"
       /\ UNCHANGED <<mem, As, cur, todo, seen, lo, looks>>

Next == Call \/ Write \/ Look \/ ReadSt \/ ReadVal \/ End
Spec == Init /\ [][Next]_vars

LineTrue == pc = "end" => Fits(Line, seen, As, lo, Len(As))
\* when nothing is going on, a whole look shows the last state and values
Quiet == (pc = "end" /\ lo = Len(As)) => seen.st = As[lo].st /\ \A f \in Shows(Line, seen.st) : seen[f] = As[lo][f]
=============================================================================
