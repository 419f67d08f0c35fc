------------------------------- MODULE UiTrace -------------------------------
(* Validates sessions on a terminal against Ui.
     start   tool parts w file   file: the input file of each part
     key     key                 a key which has been handled
     screen  at rows cols files blk wblk  the lines of the screen while part at stands still
                                 blk: the blocks the workers show, wblk: the block the writer shows to write (-1: none)
     end     rc                  0, 1 (not 0), 2 (had to be killed)
             restored            the terminal is as it was
             out                 same, prefix (of the output without a display), rejected, other
             report              the reports are those without a display *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, run, cancelled
E == Trace[l]
Names == [decompress |-> "Decompress", tagfilter |-> "TagFilter", nodeindex |-> "NodeIndex", wayindex |-> "WayIndex", relindex |-> "RelIndexInit", rewritenodes |-> "RewriteNodes"]
Min(a, b) == IF a < b THEN a ELSE b
\* row is text, or text and more, as far as there is room for it
Starts(row, text, cols) == LET n == Min(Len(text), cols) IN Len(row) >= n /\ SubSeq(row, 1, n) = SubSeq(text, 1, n)
Cut(text, cols) == SubSeq(text, 1, Min(Len(text), cols))
States == {"initializing", "loading block", "sending block", "shutting down"}
Init == l = 1 /\ run = [tool |-> ""] /\ cancelled = FALSE
Start == /\ l <= Len(Trace) /\ E.ev = "start" /\ l' = l + 1 /\ run' = E /\ cancelled' = FALSE
Key == /\ l <= Len(Trace) /\ E.ev = "key" /\ l' = l + 1 /\ run' = run
       /\ cancelled' = (cancelled \/ E.key = "cancel")
\* the lines of part at: pass (when there can be several), file, workers, writer
Lines(at) == LET p == IF run.tool = "rewritenodes" THEN 1 ELSE 0
                 n == Len(E.rows)
                 name == "[" \o Names[run.tool] \o "] Processing PBF " \o run.file[at] \o ": " IN
    /\ n >= p + 2
    /\ p = 1 => E.rows[1] = Cut("Pass " \o ToString(at) \o "/" \o ToString(run.parts), E.cols)
    /\ TRUE = (\E s \in States : Starts(E.rows[p + 1], name \o s, E.cols))
    /\ TRUE = (\A j \in p + 2 .. n - 1 : Starts(E.rows[j], "Worker: ", E.cols))
    /\ Starts(E.rows[n], "Writer: ", E.cols)
    /\ n - p - 2 <= run.w
    \* workers do not end before the input does
    /\ (E.cols >= 60 /\ TRUE = (\E s \in {"loading block", "sending block"} : Starts(E.rows[p + 1], name \o s, E.cols))) => n - p - 2 = run.w
Blocks == /\ TRUE = (\A i, j \in 1..Len(E.blk) : (i # j /\ E.blk[i] >= 0) => E.blk[i] # E.blk[j])
          /\ E.wblk >= 0 => TRUE = (\A i \in 1..Len(E.blk) : E.blk[i] >= 0 => E.blk[i] > E.wblk)
Screen == /\ l <= Len(Trace) /\ E.ev = "screen" /\ l' = l + 1 /\ UNCHANGED <<run, cancelled>>
          /\ Lines(E.at) /\ Blocks
End == /\ l <= Len(Trace) /\ E.ev = "end" /\ l' = l + 1 /\ UNCHANGED <<run, cancelled>>
       /\ E.restored /\ E.rc = 0
       /\ ~cancelled => E.out = "same" /\ E.report
       \* it was heard while most of the input was still to come
       /\ cancelled => E.out = (IF run.tool \in {"nodeindex", "wayindex"} THEN "rejected" ELSE "prefix")
\* a key which may have come too late
Late == /\ l <= Len(Trace) /\ E.ev = "late" /\ l' = l + 1 /\ UNCHANGED <<run, cancelled>>
        /\ E.restored /\ E.rc = 0 /\ E.out \in {"same", "prefix", "rejected"}
\* no terminal: refused, or done
NoTerm == /\ l <= Len(Trace) /\ E.ev = "noterm" /\ l' = l + 1 /\ UNCHANGED <<run, cancelled>>
          /\ \/ E.rc = 0 /\ E.out = "same"
             \/ E.rc = 1 /\ E.err /\ E.touched = <<>>
Next == Start \/ Key \/ Screen \/ End \/ Late \/ NoTerm
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
