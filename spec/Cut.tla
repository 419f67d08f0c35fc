-------------------------------- MODULE Cut --------------------------------
(* A tool which copies or rewrites blobs, when it is cancelled: a worker takes a block, looks at
   it, and sends on what becomes of it (two units, or nothing for the blocks in Empty); the
   writer gets the results in the order of the blocks.  The contract: when all is over the file
   is what the first k blocks become, for some k, and everything ends.
   Design: ok; drain - after a cancel the writer only drops what it gets (allowed);
   skip - a worker which looks at its block after a cancel sends on nothing;
   late - it throws away what it has made before; torn - the writer stops within a block;
   resume - the writer drops only the block it has when the cancel comes; quit - it leaves. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS B, W, Empty, Design

VARIABLES at,        \* blocks handed out
          hold,      \* taken, not looked at
          made,      \* made, not sent on: block -> units
          sent,      \* sent on, not written: block -> units
          next,      \* blocks which the writer has had
          file, cancelled, told, quit, closed, over
vars == <<at, hold, made, sent, next, file, cancelled, told, quit, closed, over>>

Blocks == 0..B-1
Out(i) == IF i \in Empty THEN <<>> ELSE <<<<i, 1>>, <<i, 2>>>>
RECURSIVE Flat(_)
Flat(k) == IF k = 0 THEN <<>> ELSE Flat(k-1) \o Out(k-1)
None == [i \in {} |-> <<>>]
With(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Busy == Cardinality(hold) + Cardinality(DOMAIN made)

Init == /\ at = 0 /\ hold = {} /\ made = None /\ sent = None /\ next = 0 /\ file = <<>>
        /\ cancelled = FALSE /\ told = FALSE /\ quit = FALSE /\ closed = FALSE /\ over = FALSE

Take == /\ ~closed /\ at < B /\ Busy < W
        /\ hold' = hold \cup {at} /\ at' = at + 1
        /\ UNCHANGED <<made, sent, next, file, cancelled, told, quit, closed, over>>
Feed(i) == /\ i \in hold
           /\ hold' = hold \ {i}
           /\ made' = With(made, i, IF Design = "skip" /\ cancelled THEN <<>> ELSE Out(i))
           /\ UNCHANGED <<at, sent, next, file, cancelled, told, quit, closed, over>>
Send(i) == /\ i \in DOMAIN made
           /\ sent' = With(sent, i, IF Design = "late" /\ cancelled THEN <<>> ELSE made[i])
           /\ made' = Without(made, i)
           /\ UNCHANGED <<at, hold, next, file, cancelled, told, quit, closed, over>>
Write == /\ next \in DOMAIN sent /\ ~quit
         /\ sent' = Without(sent, next) /\ next' = next + 1
         /\ told' = (told \/ cancelled)
         /\ file' = (IF ~cancelled THEN file \o sent[next]
                     ELSE CASE Design = "torn" -> IF told THEN file ELSE file \o SubSeq(sent[next], 1, 1)
                            [] Design = "drain" -> file
                            [] Design = "resume" -> IF told THEN file \o sent[next] ELSE file
                            [] OTHER -> file \o sent[next])
         /\ UNCHANGED <<at, hold, made, cancelled, quit, closed, over>>
Quit == /\ Design = "quit" /\ cancelled /\ ~quit /\ quit' = TRUE
        /\ UNCHANGED <<at, hold, made, sent, next, file, cancelled, told, closed, over>>
Cancel == /\ ~cancelled /\ ~over /\ cancelled' = TRUE
          /\ UNCHANGED <<at, hold, made, sent, next, file, told, quit, closed, over>>
Close == /\ ~closed /\ (at = B \/ cancelled) /\ closed' = TRUE
         /\ UNCHANGED <<at, hold, made, sent, next, file, cancelled, told, quit, over>>
Over == /\ closed /\ ~over /\ next = at /\ over' = TRUE
        /\ UNCHANGED <<at, hold, made, sent, next, file, cancelled, told, quit, closed>>

Work == \/ Take \/ (\E i \in Blocks : Feed(i) \/ Send(i)) \/ Write \/ Quit \/ Close \/ Over
Next == Work \/ Cancel
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

\* ---- the contract
Prefix == over => \E k \in 0..at : file = Flat(k)
Complete == over /\ ~cancelled => file = Flat(B)
Ends == <>over
=============================================================================
