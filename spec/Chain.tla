-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* The tools one after the other, in any order in which their inputs are   *)
(* there.  A .osm.pbf made from the original is known by the nodes it      *)
(* still has and the node ids whose occurrences in ways have been          *)
(* replaced; a node index by the nodes it knows; a way index by the        *)
(* replaced ids of the file it was made from.  Tools are the contracts     *)
(* which the other specifications establish one by one; here they are      *)
(* composed:                                                               *)
(*   filter      loses the nodes without tags, nothing else  (TagFilter)   *)
(*   decompress  changes nothing                             (Decompress)  *)
(*   nodeindex   knows the nodes of the file                 (NodeIdx)     *)
(*   rewrite     replaces what the index knows               (Rewrite)     *)
(*   wayindex    has each way's words, repeats reduced       (WayIdx)      *)
(*   relindex    lists them per relation                     (RelIdx)      *)
(* The promise: a relation index whose ways come from a file rewritten     *)
(* with an index of all nodes says of every way just what the original     *)
(* file says, whatever else was done before, between and after.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Dedup(s) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ acc[Len(acc)] = x THEN acc ELSE Append(acc, x), <<>>, s)

\* --------------------------------------------------- what is known of a file
Original(ids) == [nodes |-> ids, rew |-> {}]
AfterFilter(f, tagged) == [f EXCEPT !.nodes = @ \cap tagged]
AfterRewrite(f, known) == [f EXCEPT !.rew = @ \cup known]

(***************************************************************************)
(* The composition, over concrete words: a node id is a positive word, a   *)
(* location a negative one.                                                *)
(***************************************************************************)
CONSTANTS NIds,       \* nodes 1..NIds are in the file, NIds + 1 is not
          NPos,       \* positions 1..NPos
          MaxRefs, MaxSteps,
          Design      \* "ok", or wrong: "noflag" locations look like ids, "twice" a second filter removes
                      \* references of lost nodes, "early" repeats are reduced before rewriting,
                      \* "lossy" rewriting loses the untagged nodes and decides by them
Ids == 1..NIds
Refs == UNION {[1..n -> 1..NIds + 1] : n \in 0..MaxRefs}

VARIABLES pos, tagged,     \* the original: position of each node, which nodes have tags
          refs,            \* references of its way 1; its relation has the ways 1 and 2, way 2 does not exist
          pbfs,            \* files made: [nodes, rew (as known), words (of way 1)]
          nidx,            \* node indexes: id -> word
          widx,            \* way indexes: [rew (as known), words]
          rels,            \* relation indexes: [rew (as known), ways]
          steps
vars == <<pos, tagged, refs, pbfs, nidx, widx, rels, steps>>
orig == <<pos, tagged, refs>>

LocWord(n) == IF Design = "noflag" THEN pos[n] ELSE -pos[n]
\* what the words of the way are to be when the ids in rew have been replaced
Words(rew) == [i \in DOMAIN refs |-> IF refs[i] \in rew THEN LocWord(refs[i]) ELSE refs[i]]

Init == /\ pos \in [Ids -> 1..NPos] /\ tagged \in SUBSET Ids /\ refs \in Refs
        /\ pbfs = <<[nodes |-> Ids, rew |-> {}, words |-> refs]>>
        /\ nidx = <<>> /\ widx = <<>> /\ rels = <<>> /\ steps = 0
Step == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED orig

Filter == /\ Step /\ \E i \in DOMAIN pbfs :
               LET f == pbfs[i]
                   g == [f EXCEPT !.nodes = @ \cap tagged] IN
               pbfs' = Append(pbfs, IF Design # "twice" THEN g
                                    ELSE [g EXCEPT !.words = SelectSeq(@, LAMBDA w : w < 0 \/ w \in f.nodes)])
          /\ UNCHANGED <<nidx, widx, rels>>
Decompress == /\ Step /\ \E i \in DOMAIN pbfs : pbfs' = Append(pbfs, pbfs[i]) /\ UNCHANGED <<nidx, widx, rels>>
NodeIndex == /\ Step /\ \E i \in DOMAIN pbfs : nidx' = Append(nidx, [n \in pbfs[i].nodes |-> LocWord(n)])
             /\ UNCHANGED <<pbfs, widx, rels>>
Rewrite == /\ Step
           /\ \E i \in DOMAIN pbfs, x \in DOMAIN nidx :
                LET f == pbfs[i]
                    old == IF Design = "early" THEN Dedup(f.words) ELSE f.words
                    know == IF Design = "lossy" THEN DOMAIN nidx[x] \cap f.nodes ELSE DOMAIN nidx[x] IN
                pbfs' = Append(pbfs, [nodes |-> f.nodes, rew |-> f.rew \cup DOMAIN nidx[x],
                                      words |-> [j \in DOMAIN old |-> IF old[j] \in know THEN nidx[x][old[j]] ELSE old[j]]])
           /\ UNCHANGED <<nidx, widx, rels>>
WayIndex == /\ Step /\ \E i \in DOMAIN pbfs : widx' = Append(widx, [rew |-> pbfs[i].rew, words |-> Dedup(pbfs[i].words)])
            /\ UNCHANGED <<pbfs, nidx, rels>>
RelIndex == /\ Step /\ \E i \in DOMAIN pbfs, w \in DOMAIN widx :
                 rels' = Append(rels, [rew |-> widx[w].rew, ways |-> <<widx[w].words, <<>>>>])
            /\ UNCHANGED <<pbfs, nidx, widx>>
Next == Filter \/ Decompress \/ NodeIndex \/ Rewrite \/ WayIndex \/ RelIndex
Spec == Init /\ [][Next]_vars

\* the files are what is known of them: the words depend only on the set of replaced ids
Known == \A i \in DOMAIN pbfs : pbfs[i].words = Words(pbfs[i].rew)
Listed == \A i \in DOMAIN rels : rels[i].ways = <<Dedup(Words(rels[i].rew)), <<>>>>
\* with all nodes indexed: the positions of the way's nodes as the original has them; nothing else matters
Whole == \A i \in DOMAIN rels : rels[i].rew = Ids =>
           rels[i].ways[1] = Dedup([j \in DOMAIN refs |-> IF refs[j] \in Ids THEN -pos[refs[j]] ELSE refs[j]])
=============================================================================
