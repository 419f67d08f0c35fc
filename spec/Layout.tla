------------------------------- MODULE Layout -------------------------------
(* What a block of an .osm.pbf may look like, and how the tools go through it.
   A block is a sequence of groups, a group a sequence of fields of the kinds n (a
   dense message), w (a way), r (a relation) and c (a changeset), in any order, and a
   set of frame fields (granularity, date granularity, offsets) before or after the
   groups.  Every tool keeps the bytes of the kinds it does not need as they are and
   decodes the others.  rewritenodes writes the block again, tagfilter builds a new one
   out of all entities, the other tools only look.  The contract: no entity is lost,
   doubled, reordered within its kind or moved, whatever the layout. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxFields, MaxGroups, MaxTotal, Frames, Modes, Policy

Kinds == {"n", "w", "r", "c"}
Entities == {"n", "w", "r"}
Skips(m) == CASE m = "rewritenodes" -> {"n", "r"}
              [] m = "wayindex" -> {"n", "r"}
              [] m = "nodeindex" -> {"w", "r"}
              [] m = "relindex" -> {"n", "w"}
              [] OTHER -> {}                       \* tagfilter, entityfind, entitycount

Sel(s, k) == SelectSeq(s, LAMBDA x : x[1] = k)
Of(s, k) == SelectSeq(s, LAMBDA x : x = k)
Groups == {s \in UNION {[1..n -> Kinds] : n \in 0..MaxFields} : Len(Of(s, "n")) <= 1 /\ Len(Of(s, "c")) <= 1}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Len(s[1]) + Sum(Tail(s))
Blocks == {b \in UNION {[1..n -> Groups] : n \in 0..MaxGroups} : Sum(b) <= MaxTotal}

VARIABLES block, frame, late, mode, phase, gi, fi, cur, parsed, known, out, oframe
vars == <<block, frame, late, mode, phase, gi, fi, cur, parsed, known, out, oframe>>

Empty == [dec |-> <<>>, raw |-> <<>>]

Init == /\ block \in Blocks /\ frame \in Frames /\ late \in BOOLEAN /\ mode \in Modes
        /\ phase = "frame" /\ gi = 1 /\ fi = 1 /\ cur = Empty /\ parsed = <<>>
        /\ known = {} /\ out = <<>> /\ oframe = {}

\* an entity as the tool holds it: its kind, where it was, and the frame applied to it
Item(k) == <<k, gi, fi>>

ReadFrame == /\ phase = "frame"
             /\ known' = IF late THEN {} ELSE frame
             /\ phase' = "read"
             /\ UNCHANGED <<block, frame, late, mode, gi, fi, cur, parsed, out, oframe>>

ReadField == /\ phase = "read" /\ gi <= Len(block) /\ fi <= Len(block[gi])
             /\ LET k == block[gi][fi] IN
                cur' = IF k = "c" THEN cur
                       ELSE IF k \in Skips(mode) THEN [cur EXCEPT !.raw = Append(@, Item(k))]
                       ELSE [cur EXCEPT !.dec = Append(@, Item(k))]
             /\ fi' = fi + 1
             /\ UNCHANGED <<block, frame, late, mode, phase, gi, parsed, known, out, oframe>>

EndGroup == /\ phase = "read" /\ gi <= Len(block) /\ fi > Len(block[gi])
            /\ parsed' = Append(parsed, cur) /\ cur' = Empty
            /\ gi' = gi + 1 /\ fi' = 1
            /\ UNCHANGED <<block, frame, late, mode, phase, known, out, oframe>>

EndRead == /\ phase = "read" /\ gi > Len(block)
           /\ known' = IF Policy = "early" THEN known ELSE frame
           /\ phase' = "write" /\ gi' = 1
           /\ UNCHANGED <<block, frame, late, mode, fi, cur, parsed, out, oframe>>

\* the fields of one kind, decoded or as they were
Both(p, k) == IF Sel(p.dec, k) # <<>> THEN Sel(p.dec, k)
              ELSE IF Policy = "shadow" /\ p.dec # <<>> THEN <<>>
              ELSE IF Policy = "blind" THEN <<>>
              ELSE Sel(p.raw, k)
First(p) == IF p.dec # <<>> THEN p.dec[1][1] ELSE IF p.raw # <<>> THEN p.raw[1][1] ELSE "n"
Emit(p) == IF Policy = "single" THEN Both(p, First(p)) ELSE Both(p, "n") \o Both(p, "w") \o Both(p, "r")

\* rewritenodes: group by group, with the frame of the block
WriteGroup == /\ phase = "write" /\ mode = "rewritenodes" /\ gi <= Len(parsed)
              /\ out' = Append(out, Emit(parsed[gi])) /\ gi' = gi + 1
              /\ UNCHANGED <<block, frame, late, mode, phase, fi, cur, parsed, known, oframe>>
WriteEnd == /\ phase = "write" /\ mode = "rewritenodes" /\ gi > Len(parsed)
            /\ oframe' = IF Policy = "frameless" THEN known \ {"lat", "lon"} ELSE known
            /\ phase' = "done"
            /\ UNCHANGED <<block, frame, late, mode, gi, fi, cur, parsed, known, out>>

\* tagfilter: all entities of a kind into one group, their positions made absolute
RECURSIVE Flat(_, _)
Flat(ps, k) == IF ps = <<>> THEN <<>> ELSE Sel(ps[1].dec, k) \o Flat(Tail(ps), k)
Absolute(s) == [j \in 1..Len(s) |-> <<s[j][1], s[j][2], s[j][3], known \ {"dgran"}>>]
Taken == IF Policy = "lastgroup" /\ parsed # <<>> THEN <<parsed[Len(parsed)]>> ELSE parsed
Rebuild == /\ phase = "write" /\ mode = "tagfilter"
           /\ out' = SelectSeq(<<Absolute(Flat(Taken, "n")), Absolute(Flat(Taken, "w")), Absolute(Flat(Taken, "r"))>>, LAMBDA g : g # <<>>)
           /\ oframe' = {} /\ phase' = "done"
           /\ UNCHANGED <<block, frame, late, mode, gi, fi, cur, parsed, known>>

\* the others: they see the decoded entities, in order
Look == /\ phase = "write" /\ mode \notin {"rewritenodes", "tagfilter"}
        /\ out' = [j \in 1..Len(Taken) |-> [i \in 1..Len(Taken[j].dec) |->
                      <<Taken[j].dec[i][1], Taken[j].dec[i][2], Taken[j].dec[i][3], known \ {"dgran"}>>]]
        /\ phase' = "done"
        /\ UNCHANGED <<block, frame, late, mode, gi, fi, cur, parsed, known, oframe>>

Next == ReadFrame \/ ReadField \/ EndGroup \/ EndRead \/ WriteGroup \/ WriteEnd \/ Rebuild \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------------ contract
RECURSIVE Places(_, _, _, _)
Places(g, k, i, j) == IF j > Len(block[i]) THEN <<>>
                      ELSE (IF block[i][j] = k THEN <<<<k, i, j>>>> ELSE <<>>) \o Places(g, k, i, j + 1)
In(i, k) == Places(block, k, i, 1)
RECURSIVE InAll(_, _)
InAll(i, k) == IF i > Len(block) THEN <<>> ELSE In(i, k) \o InAll(i + 1, k)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
At(s) == [j \in 1..Len(s) |-> <<s[j][1], s[j][2], s[j][3], frame \ {"dgran"}>>]

Through == (phase = "done" /\ mode = "rewritenodes") =>
    /\ Len(out) = Len(block) /\ oframe = frame
    /\ \A i \in 1..Len(block), k \in Entities : Sel(out[i], k) = In(i, k)
Rebuilt == (phase = "done" /\ mode = "tagfilter") =>
    /\ oframe = {} /\ \A k \in Entities : Sel(Cat(out), k) = At(InAll(1, k))
    /\ \A i \in 1..Len(out) : \A j \in 1..Len(out[i]) : out[i][j][1] = out[i][1][1]     \* groups of one kind
Seen == (phase = "done" /\ mode \notin {"rewritenodes", "tagfilter"}) =>
    \A k \in Entities : Sel(Cat(out), k) = IF k \in Skips(mode) THEN <<>> ELSE At(InAll(1, k))
Ends == <>(phase = "done")
=============================================================================
