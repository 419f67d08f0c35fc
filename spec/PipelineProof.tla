--------------------------- MODULE PipelineProof ---------------------------
(* The safety of Pipeline for every number of blocks and of workers. *)
EXTENDS Pipeline, TLAPS

ASSUME Sizes == B \in Nat /\ W \in Nat

Types == /\ at \in 0..B /\ next \in 0..at
         /\ rdr \in {"load", "send", "close", "waitW", "waitR", "waitO", "unmapped", "end"}
         /\ wst \in [Workers -> {"idle", "busy", "exited"}]
         /\ hold \in [Workers -> Int]
         /\ rob \subseteq next..(at - 1)
         /\ rst \in {"recv", "send", "exited"}
         /\ wr \in {"recv", "busy", "exited"}
         /\ out \in Seq(Nat)
         /\ open \subseteq {"in", "reorder", "out"}
         /\ mapped \in BOOLEAN /\ cancelled \in BOOLEAN /\ fin \in BOOLEAN

Places == /\ Len(out) = next /\ \A i \in 1..next : out[i] = i - 1
          /\ \A i \in next..(at - 1) : i \in rob \/ \E w \in Workers : wst[w] = "busy" /\ hold[w] = i
          /\ \A w \in Workers : wst[w] = "busy" => hold[w] \in next..(at - 1) /\ hold[w] \notin rob
          /\ \A v, w \in Workers : wst[v] = "busy" /\ wst[w] = "busy" /\ hold[v] = hold[w] => v = w
          /\ rst = "send" <=> next \in rob

Closing == /\ rdr = "send" => at < B
           /\ "in" \in open <=> rdr \in {"load", "send", "close"}
           /\ "reorder" \in open <=> rdr \in {"load", "send", "close", "waitW"}
           /\ "out" \in open <=> rdr \in {"load", "send", "close", "waitW", "waitR"}
           /\ \A w \in Workers : wst[w] = "exited" => "in" \notin open
           /\ "reorder" \notin open => \A w \in Workers : wst[w] = "exited"
           /\ rst = "exited" => "reorder" \notin open
           /\ "out" \notin open => rst = "exited"
           /\ wr = "exited" => "out" \notin open
           /\ mapped <=> rdr \notin {"unmapped", "end"}
           /\ ~mapped => wr = "exited"
           /\ fin <=> rdr = "end"
           /\ rdr \notin {"load", "send"} => cancelled \/ at = B

Ind == Types /\ Places /\ Closing

LEMMA Start == Init => Ind
  BY Sizes DEF Init, Ind, Types, Places, Closing, Workers, Blocks

\* what is left to do when an action touches nothing of a part
LEMMA StepTypes == Ind /\ [Next]_vars => Types'
<1> SUFFICES ASSUME Ind, [Next]_vars PROVE Types'
  OBVIOUS
<1> USE Sizes DEF Ind, Types
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars
<1>2. CASE Load BY <1>2 DEF Load
<1>3. CASE GiveUp BY <1>3 DEF GiveUp
<1>4. CASE CloseIn BY <1>4 DEF CloseIn
<1>5. CASE CloseReorder BY <1>5 DEF CloseReorder
<1>6. CASE CloseOut BY <1>6 DEF CloseOut
<1>7. CASE Unmap BY <1>7 DEF Unmap
<1>8. CASE Done BY <1>8 DEF Done
<1>9. CASE Written BY <1>9 DEF Written
<1>10. CASE ReorderExit BY <1>10 DEF ReorderExit
<1>11. CASE WriterExit BY <1>11 DEF WriterExit
<1>12. CASE Cancel BY <1>12 DEF Cancel
<1>13. ASSUME NEW w \in Workers, WorkerExit(w) PROVE Types' BY <1>13 DEF WorkerExit
<1>14. ASSUME NEW w \in Workers, Recv(w) PROVE Types'
  <2>1. at < B BY <1>14 DEF Recv, Closing
  <2> QED BY <2>1, <1>14 DEF Recv
<1>15. ASSUME NEW w \in Workers, Send(w) PROVE Types'
  <2>1. hold[w] \in next..(at - 1) BY <1>15 DEF Send, Places
  <2> QED BY <2>1, <1>15 DEF Send
<1>16. CASE Write
  <2>1. next \in rob BY <1>16 DEF Write, Places
  <2>2. next + 1 \in 0..at /\ next \in Nat BY <2>1
  <2>3. rob' \subseteq (next + 1)..(at - 1) BY <1>16 DEF Write
  <2>4. out' \in Seq(Nat) BY <1>16, <2>2 DEF Write
  <2> QED BY <1>16, <2>2, <2>3, <2>4 DEF Write
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12, <1>13, <1>14, <1>15, <1>16 DEF Next, Internal

LEMMA StepPlaces == Ind /\ [Next]_vars => Places'
<1> SUFFICES ASSUME Ind, [Next]_vars PROVE Places'
  OBVIOUS
<1> USE Sizes DEF Ind, Types, Places
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars
<1>2. CASE Load BY <1>2 DEF Load
<1>3. CASE GiveUp BY <1>3 DEF GiveUp
<1>4. CASE CloseIn BY <1>4 DEF CloseIn
<1>5. CASE CloseReorder BY <1>5 DEF CloseReorder
<1>6. CASE CloseOut BY <1>6 DEF CloseOut
<1>7. CASE Unmap BY <1>7 DEF Unmap
<1>8. CASE Done BY <1>8 DEF Done
<1>9. CASE Written BY <1>9 DEF Written
<1>10. CASE ReorderExit BY <1>10 DEF ReorderExit
<1>11. CASE WriterExit BY <1>11 DEF WriterExit
<1>12. CASE Cancel BY <1>12 DEF Cancel
<1>13. ASSUME NEW w \in Workers, WorkerExit(w) PROVE Places' BY <1>13 DEF WorkerExit
<1>14. ASSUME NEW w \in Workers, Recv(w) PROVE Places'
  <2>1. at < B BY <1>14 DEF Recv, Closing
  <2>2. wst' = [wst EXCEPT ![w] = "busy"] /\ hold' = [hold EXCEPT ![w] = at] /\ at' = at + 1 /\ UNCHANGED <<rob, next, rst, out>> BY <1>14 DEF Recv
  <2>3. \A i \in next'..(at' - 1) : i \in rob' \/ \E v \in Workers : wst'[v] = "busy" /\ hold'[v] = i
    <3> TAKE i \in next'..(at' - 1)
    <3>1. CASE i = at BY <3>1, <2>2
    <3>2. CASE i # at
      <4>1. i \in next..(at - 1) BY <3>2, <2>2
      <4>2. CASE i \in rob BY <4>2, <2>2
      <4>3. ASSUME NEW v \in Workers, wst[v] = "busy", hold[v] = i PROVE wst'[v] = "busy" /\ hold'[v] = i
        <5>1. wst[w] = "idle" BY <1>14 DEF Recv
        <5> QED BY <4>3, <5>1, <2>2
      <4> QED BY <4>1, <4>2, <4>3
    <3> QED BY <3>1, <3>2
  <2>4. \A v \in Workers : wst'[v] = "busy" => hold'[v] \in next'..(at' - 1) /\ hold'[v] \notin rob' BY <2>2
  <2>5. \A u, v \in Workers : wst'[u] = "busy" /\ wst'[v] = "busy" /\ hold'[u] = hold'[v] => u = v BY <2>2
  <2>6. (rst = "send" <=> next \in rob)' BY <2>2
  <2>7. Len(out') = next' /\ \A i \in 1..next' : out'[i] = i - 1 BY <2>2
  <2> QED BY <2>3, <2>4, <2>5, <2>6, <2>7
<1>15. ASSUME NEW w \in Workers, Send(w) PROVE Places'
  <2>1. wst' = [wst EXCEPT ![w] = "idle"] /\ hold' = [hold EXCEPT ![w] = -1] /\ rob' = rob \cup {hold[w]} /\ UNCHANGED <<at, next, out>> /\ wst[w] = "busy" /\ rst' = IF next \in rob' THEN "send" ELSE "recv" BY <1>15 DEF Send
  <2>2. \A i \in next'..(at' - 1) : i \in rob' \/ \E v \in Workers : wst'[v] = "busy" /\ hold'[v] = i
    <3> TAKE i \in next'..(at' - 1)
    <3>1. CASE i \in rob \/ i = hold[w] BY <3>1, <2>1
    <3>2. ASSUME NEW v \in Workers, wst[v] = "busy", hold[v] = i, i # hold[w] PROVE wst'[v] = "busy" /\ hold'[v] = i BY <3>2, <2>1
    <3> QED BY <3>1, <3>2, <2>1
  <2>3. \A v \in Workers : wst'[v] = "busy" => hold'[v] \in next'..(at' - 1) /\ hold'[v] \notin rob' BY <2>1
  <2>4. \A u, v \in Workers : wst'[u] = "busy" /\ wst'[v] = "busy" /\ hold'[u] = hold'[v] => u = v BY <2>1
  <2>5. (rst = "send" <=> next \in rob)' BY <2>1
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5
<1>16. CASE Write
  <2>1. next \in rob BY <1>16 DEF Write
  <2>2. out' = Append(out, next) /\ rob' = rob \ {next} /\ next' = next + 1 /\ UNCHANGED <<at, wst, hold>> /\ rst' = IF next + 1 \in rob THEN "send" ELSE "recv" BY <1>16 DEF Write
  <2>3. Len(out') = next' /\ \A i \in 1..next' : out'[i] = i - 1 BY <2>2
  <2>4. \A i \in next'..(at' - 1) : i \in rob' \/ \E v \in Workers : wst'[v] = "busy" /\ hold'[v] = i BY <2>2
  <2>5. \A v \in Workers : wst'[v] = "busy" => hold'[v] \in next'..(at' - 1) /\ hold'[v] \notin rob'
    <3> SUFFICES ASSUME NEW v \in Workers, wst[v] = "busy" PROVE hold[v] \in (next + 1)..(at - 1) /\ hold[v] \notin rob \ {next}
      BY <2>2
    <3>1. hold[v] # next BY <2>1
    <3> QED BY <3>1
  <2>6. (rst = "send" <=> next \in rob)' BY <2>2
  <2> QED BY <2>2, <2>3, <2>4, <2>5, <2>6
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12, <1>13, <1>14, <1>15, <1>16 DEF Next, Internal

LEMMA StepClosing == Ind /\ [Next]_vars => Closing'
<1> SUFFICES ASSUME Ind, [Next]_vars PROVE Closing'
  OBVIOUS
<1> USE Sizes DEF Ind, Types, Closing
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars
<1>2. CASE Load BY <1>2 DEF Load
<1>3. CASE GiveUp BY <1>3 DEF GiveUp
<1>4. CASE CloseIn BY <1>4 DEF CloseIn
<1>5. CASE CloseReorder BY <1>5 DEF CloseReorder
<1>6. CASE CloseOut BY <1>6 DEF CloseOut
<1>7. CASE Unmap BY <1>7 DEF Unmap
<1>8. CASE Done BY <1>8 DEF Done
<1>9. CASE Written BY <1>9 DEF Written
<1>10. CASE ReorderExit BY <1>10 DEF ReorderExit
<1>11. CASE WriterExit BY <1>11 DEF WriterExit
<1>12. CASE Cancel BY <1>12 DEF Cancel
<1>13. ASSUME NEW w \in Workers, WorkerExit(w) PROVE Closing' BY <1>13 DEF WorkerExit
<1>14. ASSUME NEW w \in Workers, Recv(w) PROVE Closing' BY <1>14 DEF Recv
<1>15. ASSUME NEW w \in Workers, Send(w) PROVE Closing' BY <1>15 DEF Send
<1>16. CASE Write BY <1>16 DEF Write
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12, <1>13, <1>14, <1>15, <1>16 DEF Next, Internal

\* C01: in order, once each; what reached the workers and is not written is held by one or waits
\* C02: at the end everything which was handed out is written, and all of the file unless cancelled;
\*      nothing which may look at the file is left when it is unmapped
Safe == /\ \A i \in 1..Len(out) : out[i] = i - 1
        /\ rst = "exited" => rob = {}
        /\ fin => /\ Len(out) = at /\ (at = B \/ cancelled)
                  /\ \A w \in Workers : wst[w] = "exited"
                  /\ rst = "exited" /\ wr = "exited"
        /\ ~mapped => wr = "exited" /\ \A w \in Workers : wst[w] = "exited"

LEMMA Enough == Ind => Safe
<1> SUFFICES ASSUME Ind PROVE Safe
  OBVIOUS
<1> USE Sizes DEF Ind, Types, Places, Closing
<1>1. \A i \in 1..Len(out) : out[i] = i - 1 OBVIOUS
<1>2. rst = "exited" => rob = {} /\ next = at
  <2> SUFFICES ASSUME rst = "exited" PROVE rob = {} /\ next = at
    OBVIOUS
  <2>1. next \notin rob BY Isa
  <2>2. \A w \in Workers : wst[w] = "exited" OBVIOUS
  <2>3. \A i \in next..(at - 1) : i \in rob BY <2>2
  <2>4. next = at BY <2>1, <2>3
  <2> QED BY <2>4
<1>3. ~mapped => wr = "exited" /\ rst = "exited" /\ \A w \in Workers : wst[w] = "exited" OBVIOUS
<1>4. fin => Len(out) = at /\ (at = B \/ cancelled) BY <1>2, <1>3
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Safe

THEOREM Spec => []Safe
<1>1. Ind /\ [Next]_vars => Ind' BY StepTypes, StepPlaces, StepClosing DEF Ind
<1> QED BY <1>1, Start, Enough, PTL DEF Spec
=============================================================================
