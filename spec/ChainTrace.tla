----------------------------- MODULE ChainTrace -----------------------------
(* Runs of the real tools one after the other, and what the relation indexes say.
   CONSTS, one line per original file: ids[j] = <<word of node id j, word of its location (0: not in
   the file), has tags that stay>>; ways[i] = <<word of the id, references (positions in ids)>>;
   rels[r] = <<word of the id, <<<<word of the way id, position in ways or 0>>...>>>> way members;
   lists = the lists of words which occur in the outputs.
   Events:  planet k              original file k, a directory with nothing else
            cmd op n in x rc      the n-th tool run: op on the file made by run in (0 the original)
                                  with the index made by run x
            rec id n ways / endrec   the records of the relation index it made *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)
VARIABLES l, k, made, next
Ch == INSTANCE Chain WITH NIds <- 0, NPos <- 0, MaxRefs <- 0, MaxSteps <- 0, Design <- "ok", pos <- 0, tagged <- 0, refs <- 0,
        pbfs <- 0, nidx <- 0, widx <- 0, rels <- 0, steps <- 0
E == Trace[l]
C == Conf[k]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
Init == l = 1 /\ k = 0 /\ made = <<>> /\ next = 0

Nodes(f) == {j \in DOMAIN Conf[f].ids : Conf[f].ids[j][2] # 0}
Tagged(f) == {j \in DOMAIN Conf[f].ids : Conf[f].ids[j][3] = 1}
Planet == /\ Ev("planet") /\ next = 0 /\ k' = E.k /\ made' = <<>> /\ UNCHANGED next

Pbf(i) == IF i = 0 THEN Ch!Original(Nodes(k)) ELSE made[i].pbf
No == [nodes |-> {}, rew |-> {}]
Cmd == /\ Ev("cmd") /\ next = 0 /\ E.rc = 0 /\ E.n = Len(made) + 1
       /\ \E f \in {Pbf(E.in)} :
            made' = Append(made,
              CASE E.op = "tagfilter"    -> [pbf |-> Ch!AfterFilter(f, Tagged(k)), idx |-> {}]
                [] E.op = "decompress"   -> [pbf |-> f, idx |-> {}]
                [] E.op = "nodeindex"    -> [pbf |-> No, idx |-> f.nodes]
                [] E.op = "rewritenodes" -> [pbf |-> Ch!AfterRewrite(f, made[E.x].idx), idx |-> {}]
                [] E.op = "wayindex"     -> [pbf |-> No, idx |-> f.rew]
                [] OTHER                 -> [pbf |-> No, idx |-> made[E.x].idx])
       /\ next' = (IF E.op = "relindex" THEN 1 ELSE 0)
       /\ UNCHANGED k

\* the words of way w when the ids in rew have been replaced
Words(f, w, rew) == Ch!Dedup([i \in DOMAIN Conf[f].ways[w][2] |->
                       LET j == Conf[f].ways[w][2][i] IN Conf[f].ids[j][IF j \in rew THEN 2 ELSE 1]])
Rec == /\ Ev("rec") /\ next > 0 /\ next <= Len(C.rels)
       /\ E.id = C.rels[next][1]
       /\ E.n = Len(C.rels[next][2]) /\ Len(E.ways) = E.n
       /\ \E rew \in {made[Len(made)].idx} : \E ms \in {C.rels[next][2]} :
            TRUE = (\A i \in DOMAIN ms :
              /\ E.ways[i][1] = ms[i][1]
              /\ C.lists[E.ways[i][2]] = (IF ms[i][2] = 0 THEN <<>> ELSE Words(k, ms[i][2], rew)))
       /\ next' = next + 1 /\ UNCHANGED <<k, made>>
EndRec == Ev("endrec") /\ next = Len(C.rels) + 1 /\ next' = 0 /\ UNCHANGED <<k, made>>
Next == Planet \/ Cmd \/ Rec \/ EndRec
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
