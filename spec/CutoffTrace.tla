----------------------------- MODULE CutoffTrace -----------------------------
(* Real tools reading an index of which only the first `cut` bytes are there.
   CONSTS, a line per index: kind "node" with the numbers of locations of its entries, or "way" with the number of
   entries and last = <<offset, length>> of the locations of the last way; size of the file.
   Events: rc, left (there is something where the result goes), same (the result is that of the whole index),
   part (the listing of one pass only: without the padding at the end the passes may be divided differently). *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)
VARIABLES l
E == Trace[l]
C == Conf[E.k]
Init == l = 1
Need(c) == IF c.kind = "node" THEN 16 + 16 * Len(c.counts) + 8 * FoldLeft(LAMBDA x, y : x + y, 0, c.counts)
           ELSE 16 + 8 * c.entries + (IF c.entries = 0 THEN 0 ELSE c.last[1] + c.last[2])
Use == /\ l <= Len(Trace) /\ E.ev = "use" /\ l' = l + 1
       /\ E.cut <= C.size /\ Need(C) <= C.size
       /\ (E.cut < Need(C) => E.rc # 0 /\ ~E.left)
       /\ (E.cut >= Need(C) => (E.rc = 0 /\ (E.same \/ (E.cut < C.size /\ E.part))) \/ (E.cut < C.size /\ E.rc # 0 /\ ~E.left))
Next == Use
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
