------------------------------ MODULE Pipeline ------------------------------
(* internal/pbf: one reader dispatches the blocks of a file to W workers, a
   reorder goroutine puts what they send back into file order, and one writer
   consumes it.  All channels are unbuffered, so a send and its receive are one
   action.  One action per critical section of the code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS B,          \* number of blocks in the file
          W,          \* number of workers
          CanCancel   \* BOOLEAN: may the context be cancelled

Blocks  == 0 .. B-1
Workers == 1 .. W

VARIABLES rdr,      \* program counter of the reader
          at,       \* index of the next block to dispatch
          wst,      \* worker -> "idle" | "busy" | "exited"
          hold,     \* worker -> block it holds, or -1
          rob,      \* blocks waiting in the reorder buffer
          next,     \* the next index the reorder goroutine will release
          rst,      \* reorder goroutine: "recv" | "send" | "exited"
          wr,       \* writer: "recv" | "busy" | "exited"
          out,      \* what the writer received, in order
          open,     \* set of channels which are still open
          mapped,   \* the input file is mapped
          cancelled,
          fin       \* Wait() returns

vars == <<rdr, at, wst, hold, rob, next, rst, wr, out, open, mapped, cancelled, fin>>

Init ==
    /\ rdr = "load" /\ at = 0
    /\ wst = [w \in Workers |-> "idle"] /\ hold = [w \in Workers |-> -1]
    /\ rob = {} /\ next = 0 /\ rst = "recv"
    /\ wr = "recv" /\ out = <<>>
    /\ open = {"in", "reorder", "out"}
    /\ mapped = TRUE /\ cancelled = FALSE /\ fin = FALSE

Cancel ==
    /\ CanCancel /\ ~cancelled /\ ~fin
    /\ cancelled' = TRUE
    /\ UNCHANGED <<rdr, at, wst, hold, rob, next, rst, wr, out, open, mapped, fin>>

\* ------------------------------------------------------------------ reader
Load ==          \* parse the next blob header, or find the end of the file
    /\ rdr = "load"
    /\ rdr' = IF at < B THEN "send" ELSE "close"
    /\ UNCHANGED <<at, wst, hold, rob, next, rst, wr, out, open, mapped, cancelled, fin>>

Recv(w) ==       \* the reader's send meets worker w's receive
    /\ rdr = "send" /\ wst[w] = "idle" /\ "in" \in open
    /\ wst' = [wst EXCEPT ![w] = "busy"] /\ hold' = [hold EXCEPT ![w] = at]
    /\ at' = at + 1 /\ rdr' = "load"
    /\ UNCHANGED <<rob, next, rst, wr, out, open, mapped, cancelled, fin>>

GiveUp ==        \* select takes ctx.Done()
    /\ rdr = "send" /\ cancelled
    /\ rdr' = "close"
    /\ UNCHANGED <<at, wst, hold, rob, next, rst, wr, out, open, mapped, cancelled, fin>>

CloseIn ==
    /\ rdr = "close" /\ open' = open \ {"in"} /\ rdr' = "waitW"
    /\ UNCHANGED <<at, wst, hold, rob, next, rst, wr, out, mapped, cancelled, fin>>

WorkerExit(w) ==
    /\ wst[w] = "idle" /\ "in" \notin open
    /\ wst' = [wst EXCEPT ![w] = "exited"]
    /\ UNCHANGED <<rdr, at, hold, rob, next, rst, wr, out, open, mapped, cancelled, fin>>

CloseReorder ==
    /\ rdr = "waitW" /\ \A w \in Workers : wst[w] = "exited"
    /\ open' = open \ {"reorder"} /\ rdr' = "waitR"
    /\ UNCHANGED <<at, wst, hold, rob, next, rst, wr, out, mapped, cancelled, fin>>

CloseOut ==
    /\ rdr = "waitR" /\ rst = "exited"
    /\ open' = open \ {"out"} /\ rdr' = "waitO"
    /\ UNCHANGED <<at, wst, hold, rob, next, rst, wr, out, mapped, cancelled, fin>>

Unmap ==
    /\ rdr = "waitO" /\ wr = "exited"
    /\ mapped' = FALSE /\ rdr' = "unmapped"
    /\ UNCHANGED <<at, wst, hold, rob, next, rst, wr, out, open, cancelled, fin>>

Done ==
    /\ rdr = "unmapped" /\ fin' = TRUE /\ rdr' = "end"
    /\ UNCHANGED <<at, wst, hold, rob, next, rst, wr, out, open, mapped, cancelled>>

\* ----------------------------------------------------------------- workers
Send(w) ==       \* worker w's send meets the reorder goroutine's receive
    /\ wst[w] = "busy" /\ rst = "recv" /\ "reorder" \in open
    /\ wst' = [wst EXCEPT ![w] = "idle"] /\ hold' = [hold EXCEPT ![w] = -1]
    /\ rob' = rob \cup {hold[w]}
    /\ rst' = IF next \in rob' THEN "send" ELSE "recv"
    /\ UNCHANGED <<rdr, at, next, wr, out, open, mapped, cancelled, fin>>

\* ----------------------------------------------------- reorder and the writer
Write ==         \* the reorder goroutine's send meets the writer's receive
    /\ rst = "send" /\ wr = "recv"
    /\ out' = Append(out, next) /\ wr' = "busy"
    /\ rob' = rob \ {next} /\ next' = next + 1
    /\ rst' = IF next + 1 \in rob THEN "send" ELSE "recv"
    /\ UNCHANGED <<rdr, at, wst, hold, open, mapped, cancelled, fin>>

Written ==
    /\ wr = "busy" /\ wr' = "recv"
    /\ UNCHANGED <<rdr, at, wst, hold, rob, next, rst, out, open, mapped, cancelled, fin>>

ReorderExit ==
    /\ rst = "recv" /\ "reorder" \notin open
    /\ rst' = "exited"
    /\ UNCHANGED <<rdr, at, wst, hold, rob, next, wr, out, open, mapped, cancelled, fin>>

WriterExit ==
    /\ wr = "recv" /\ "out" \notin open
    /\ wr' = "exited"
    /\ UNCHANGED <<rdr, at, wst, hold, rob, next, rst, out, open, mapped, cancelled, fin>>

Internal ==
    \/ Load \/ GiveUp \/ CloseIn \/ CloseReorder \/ CloseOut \/ Unmap \/ Done
    \/ Written \/ ReorderExit \/ WriterExit \/ \E w \in Workers : WorkerExit(w)

Next == Internal \/ Cancel \/ Write \/ \E w \in Workers : Recv(w) \/ Send(w)

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Internal \/ Write \/ \E w \in Workers : Recv(w) \/ Send(w))

\* -------------------------------------------------------------- properties
TypeOK ==
    /\ at \in 0..B /\ next \in 0..B /\ rob \subseteq Blocks
    /\ hold \in [Workers -> Blocks \cup {-1}]

\* C01: what the writer sees is always a gap free prefix of the file, in order
OrderedExactlyOnce == \A i \in 1..Len(out) : out[i] = i - 1

\* ... and a block is in exactly one place
Held == {hold[w] : w \in {v \in Workers : wst[v] = "busy"}}
Conserved ==
    /\ Held \cup rob \cup {out[i] : i \in 1..Len(out)} = 0..(at-1)
    /\ Cardinality(Held) + Cardinality(rob) + Len(out) = at

\* C02: nothing holds a block once the file is unmapped; nothing runs after Wait()
MappedWhileInUse ==
    (Held # {} \/ rob # {} \/ wr # "exited") => mapped
DoneMeansDone ==
    fin => /\ \A w \in Workers : wst[w] = "exited"
           /\ rst = "exited" /\ wr = "exited" /\ rob = {} /\ ~mapped
           /\ Len(out) = at
           /\ ~cancelled => at = B
NoStrandedBlocks == rst = "exited" => rob = {}
NoSendOnClosed == ("reorder" \notin open) => Held = {}

Terminates == <>fin

\* ------------------------------------------------- refinement of the contract
Abs == INSTANCE PipelineAbs WITH
          given   <- 0..(at-1),
          working <- Held,
          queued  <- rob,
          written <- Len(out),
          live    <- {w \in Workers : wst[w] # "exited"},
          writing <- wr # "exited",
          stop    <- cancelled,
          over    <- fin
Refines == Abs!Spec
=============================================================================
