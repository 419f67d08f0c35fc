---------------------------- MODULE IndexBuild ----------------------------
(* How nodeindex and wayindex build their file, as a sequence of effects on two files:
   OUT and OUT.loc.tmp.  A crash (kill, failed operation) can come between any two effects
   and in the middle of a write, a cancellation at any time.  A file is a sequence of cells;
   a cell is one of
     "ph"      the placeholder of the header          "hdr"   the header of the new index
     <<"e",i>> the elements of block i                <<"l",i>> the locations of block i
     "ohdr", "oe", "ol"                               the same of an older index at the path.
   Design: how the build is arranged.  "ok" is how the tools do it, the others are ways to get
   it wrong which the properties must tell apart (IndexBuild_bad_*.cfg must be refuted):
     "early"   the header is written first
     "open"    the placeholder is a valid header
     "keep"    an older file is not truncated
     "final"   the header is written even when cancelled
     "torn"    the header is put in before the locations are copied *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS B,        \* blocks in the input
          Chunk,    \* cells moved by one copy step
          Designs, Olds \* lengths of the older index at the path, 0 = none

VARIABLES design, old, out, loc, pos, lpos, pc, blk, cancelled, touched, feed
vars == <<design, old, out, loc, pos, lpos, pc, blk, cancelled, touched, feed>>

OldFile(n) == IF n = 0 THEN <<>> ELSE <<"ohdr">> \o [i \in 1..n |-> IF i <= n \div 2 THEN "oe" ELSE "ol"]
Elems == [i \in 1..B |-> "e" \o ToString(i)]
Locs == [i \in 1..B |-> "l" \o ToString(i)]
Complete == <<"hdr">> \o Elems \o Locs

\* f with the cells s written at position p (0-based)
Put(f, p, s) == IF s = <<>> THEN f ELSE SubSeq(f, 1, p) \o s \o SubSeq(f, p + Len(s) + 1, Len(f))
Has(f) == f # <<"absent">>
Opens(f) == /\ Has(f) /\ f # <<>>
            /\ (f[1] \in {"hdr", "ohdr"} \/ (design = "open" /\ f[1] = "ph"))

Init == /\ design \in Designs /\ old \in Olds
        /\ out = (IF old = 0 THEN <<"absent">> ELSE OldFile(old)) /\ loc = <<"absent">>
        /\ pos = 0 /\ lpos = 0 /\ pc = "create" /\ blk = 1 /\ cancelled = FALSE /\ touched = FALSE /\ feed = TRUE

Go(from, to) == pc = from /\ pc' = to
\* write all of s to OUT at pos; or a part of it and die
Write(s, to) == \/ /\ out' = Put(out, pos, s) /\ pos' = pos + Len(s) /\ pc' = to
                \/ \E n \in 1..(Len(s) - 1) : out' = Put(out, pos, SubSeq(s, 1, n)) /\ pos' = pos + n /\ pc' = "dead"

Create == /\ Go("create", "createLoc") /\ touched' = TRUE
          /\ out' = IF design = "keep" /\ Has(out) THEN out ELSE <<>>
          /\ UNCHANGED <<design, old, loc, pos, lpos, blk, cancelled, feed>>
CreateLoc == Go("createLoc", "head") /\ loc' = <<>> /\ UNCHANGED <<design, old, out, pos, lpos, blk, cancelled, touched, feed>>
Header == /\ pc = "head" /\ Write(<<IF design = "early" THEN "hdr" ELSE "ph">>, "elems")
        /\ UNCHANGED <<design, old, loc, lpos, blk, cancelled, touched, feed>>
WriteElems == /\ pc = "elems" /\ blk <= B /\ feed /\ Write(<<Elems[blk]>>, "locs")
              /\ UNCHANGED <<design, old, loc, lpos, blk, cancelled, touched, feed>>
\* the locations go to the other file
WriteLocs == /\ Go("locs", "elems") /\ loc' = Append(loc, Locs[blk]) /\ blk' = blk + 1
             /\ UNCHANGED <<design, old, out, pos, lpos, cancelled, touched, feed>>
\* the pipeline ends: all blocks were delivered, or it was cancelled after some
EndBlocks == /\ pc = "elems" /\ (blk > B \/ cancelled) /\ feed' = FALSE
             /\ pc' = IF design = "torn" THEN "hdr" ELSE "copy"
             /\ UNCHANGED <<design, old, out, loc, pos, lpos, blk, cancelled, touched>>
Copy == /\ pc = "copy" /\ ~cancelled /\ lpos < Len(loc)
        /\ LET s == SubSeq(loc, lpos + 1, IF lpos + Chunk > Len(loc) THEN Len(loc) ELSE lpos + Chunk)
           IN Write(s, "copy") /\ lpos' = lpos + Len(s)
        /\ UNCHANGED <<design, old, loc, blk, cancelled, touched, feed>>
EndCopy == /\ pc = "copy" /\ (lpos >= Len(loc) \/ cancelled) /\ pc' = "remove"
           /\ UNCHANGED <<design, old, out, loc, pos, lpos, blk, cancelled, touched, feed>>
RemoveLoc == /\ Go("remove", IF design = "torn" THEN "close" ELSE "hdr") /\ loc' = <<"absent">>
          /\ UNCHANGED <<design, old, out, pos, lpos, blk, cancelled, touched, feed>>
Final == /\ pc = "hdr"
         /\ IF cancelled /\ design # "final" THEN pc' = "close" /\ UNCHANGED out
            ELSE out' = Put(out, 0, <<"hdr">>) /\ pc' = IF design = "torn" /\ Has(loc) THEN "copy" ELSE "close"
         /\ UNCHANGED <<design, old, loc, pos, lpos, blk, cancelled, touched, feed>>
Close == Go("close", "done") /\ UNCHANGED <<design, old, out, loc, pos, lpos, blk, cancelled, touched, feed>>

Alive == pc \notin {"done", "dead"}
Cancel == Alive /\ ~cancelled /\ cancelled' = TRUE /\ UNCHANGED <<design, old, out, loc, pos, lpos, pc, blk, touched, feed>>
Crash == Alive /\ pc' = "dead" /\ UNCHANGED <<design, old, out, loc, pos, lpos, blk, cancelled, touched, feed>>

Next == Create \/ CreateLoc \/ Header \/ WriteElems \/ WriteLocs \/ EndBlocks \/ Copy \/ EndCopy \/ RemoveLoc \/ Final \/ Close
        \/ Cancel \/ Crash
Fairness == WF_vars(Create \/ CreateLoc \/ Header \/ WriteElems \/ WriteLocs \/ EndBlocks \/ Copy \/ EndCopy \/ RemoveLoc \/ Final \/ Close)
Spec == Init /\ [][Next]_vars /\ Fairness

\* at every moment: whatever is at the path is rejected, complete, or still the old index
NeverHalf == Opens(out) => (out = Complete \/ (~touched /\ out = OldFile(old)))
\* a build which ends undisturbed is complete
Whole == (pc = "done" /\ ~cancelled) => out = Complete /\ ~Has(loc)
Ends == <>(pc \in {"done", "dead"})
=============================================================================
