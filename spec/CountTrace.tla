----------------------------- MODULE CountTrace -----------------------------
(* Reports of the real counting and finding tools.  CONSTS, one line per file:
     blobs   number of blobs
     nodes, ways, rels   ids (ranks, 1.. in order of size), in file order
     refs    lengths of the ways
     ents    <<id rank, text>>: every entity, text (with the kind) says all there is to it
   Events of file k:
     count k rc rows   entitycount: <<<<blocks>>, <<nodes, max>>, <<ways, max>>, <<refs, longest>>, <<rels, max>>>>
                       where max is a rank, 0 for the value 0 and -1 for any other value
     blocks k rc n     blockcount
     find k rc ask got entityfind: ranks asked for, texts printed (in any order)
     race k            two unsynchronised accesses of workers to a counter (no action: see Count, "split") *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf == ndJsonDeserialize(IOEnv.CONSTS)
VARIABLES l
E == Trace[l]
Ev(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1 /\ E.rc = 0
C == Conf[E.k]
Mx(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, 0, s)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Init == l = 1
Count == /\ Ev("count")
         /\ E.rows = <<<<C.blobs>>, <<Len(C.nodes), Mx(C.nodes)>>, <<Len(C.ways), Mx(C.ways)>>,
                       <<Sum(C.refs), Mx(C.refs)>>, <<Len(C.rels), Mx(C.rels)>>>>
Blocks == Ev("blocks") /\ E.n = C.blobs
Find == /\ Ev("find")
        /\ \E ask \in {{E.ask[i] : i \in DOMAIN E.ask}} :
           \E want \in {SelectSeq(C.ents, LAMBDA x : x[1] \in ask)} :
              /\ Len(want) = Len(E.got)
              \* the same bag of texts
              /\ TRUE = (\A i \in DOMAIN want : Cardinality({j \in DOMAIN want : want[j][2] = want[i][2]})
                                             = Cardinality({j \in DOMAIN E.got : E.got[j] = want[i][2]}))
Next == Count \/ Blocks \/ Find
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
