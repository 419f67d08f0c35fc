------------------------------- MODULE RelIdx -------------------------------
(* cmd/relindex.  The initial file has, per relation, its id, the number of its way
   members and the negated ids of these.  Every pass copies the stream of words and
   replaces the negated ids its part of the way index answers by id, count,
   locations; the last pass gives the others a count of 0.  Output is buffered and
   flushed whenever it has grown beyond FlushAt words. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxWay, MaxMembers, MaxRels, MaxPasses, FlushAt

WayIds == 1..MaxWay
\* location lists: words which look like ids, counts and flags as well as locations
LocsOf(w) == CASE w % 3 = 1 -> <<>> [] w % 3 = 2 -> <<-1>> [] OTHER -> <<-3, -1, 2>>
Members == {<<1, w>> : w \in WayIds} \cup {<<0, 1>>, <<2, 2>>}    \* <<type, id>>
MemberSeqs == UNION {[1..n -> Members] : n \in 0..MaxMembers}

VARIABLES rels,     \* the input: a sequence of <<id, members>>
          index,    \* ways in the way index
          cuts,     \* pass p answers the indexed ways up to cuts[p]
          pass,     \* 0: initial file
          pos,      \* words of the input of this pass consumed
          buf, dir, phase
vars == <<rels, index, cuts, pass, pos, buf, dir, phase>>

Passes == Len(cuts)
WaysOf(m) == SelectSeq(m, LAMBDA x : x[1] = 1)
RECURSIVE InitWords(_)
InitWords(rs) == IF rs = <<>> THEN <<>>
    ELSE LET w == WaysOf(rs[1][2]) IN
         <<rs[1][1], Len(w)>> \o [i \in 1..Len(w) |-> -w[i][2]] \o InitWords(Tail(rs))

Init == /\ \E n \in 0..MaxRels : \E m \in [1..n -> MemberSeqs] : rels = [i \in 1..n |-> <<100 + i, m[i]>>]
        /\ index \in SUBSET WayIds
        /\ \E n \in 1..MaxPasses : cuts \in {c \in [1..n -> 0..MaxWay] :
              c[n] = MaxWay /\ \A i \in 1..(n-1) : c[i] <= c[i+1]}
        /\ pass = 0 /\ pos = 0 /\ buf = <<>> /\ dir = <<>> /\ phase = "init"

\* dir: name -> words; file p is the output of pass p
InitFile == /\ phase = "init" /\ dir' = (0 :> InitWords(rels)) /\ pass' = 1 /\ phase' = "open"
            /\ UNCHANGED <<rels, index, cuts, pos, buf>>
OpenPass == /\ phase = "open" /\ pass <= Passes
            /\ dir' = (pass :> <<>>) @@ dir
            /\ pos' = 0 /\ buf' = <<>> /\ phase' = "copy" /\ UNCHANGED <<rels, index, cuts, pass>>

In == dir[pass-1]
Mine(w) == w \in index /\ w <= cuts[pass] /\ (pass = 1 \/ w > cuts[pass-1])
\* the members of one relation, starting at word i (1-based) with n ways left
RECURSIVE Copy(_, _, _)
Copy(i, n, out) ==
    IF n = 0 THEN <<i, out>>
    ELSE IF In[i] < 0
         THEN LET w == -In[i] IN
              Copy(i + 1, n - 1, out \o
                   (IF Mine(w) THEN <<w, Len(LocsOf(w))>> \o LocsOf(w)
                    ELSE IF pass < Passes THEN <<-w>> ELSE <<w, 0>>))
         ELSE LET c == In[i+1] IN Copy(i + 2 + c, n - 1, out \o SubSeq(In, i, i + 1 + c))
CopyRelation ==
    /\ phase = "copy" /\ pos < Len(In) /\ Len(buf) <= FlushAt
    /\ LET r == Copy(pos + 3, In[pos+2], <<In[pos+1], In[pos+2]>>)
       IN buf' = buf \o r[2] /\ pos' = r[1] - 1
    /\ UNCHANGED <<rels, index, cuts, pass, dir, phase>>
Flush == /\ phase = "copy" /\ Len(buf) > FlushAt
         /\ dir' = [dir EXCEPT ![pass] = @ \o buf] /\ buf' = <<>>
         /\ UNCHANGED <<rels, index, cuts, pass, pos, phase>>
EndPass == /\ phase = "copy" /\ pos = Len(In) /\ Len(buf) <= FlushAt
           /\ dir' = [f \in (DOMAIN dir) \ {pass-1} |-> IF f = pass THEN dir[f] \o buf ELSE dir[f]]
           /\ buf' = <<>> /\ pass' = pass + 1
           /\ phase' = IF pass = Passes THEN "done" ELSE "open"
           /\ UNCHANGED <<rels, index, cuts, pos>>
Next == InitFile \/ OpenPass \/ CopyRelation \/ Flush \/ EndPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* -------------------------------------------------------------- properties
RECURSIVE Expect(_)
WayRec(w) == IF w \in index THEN <<w, Len(LocsOf(w))>> \o LocsOf(w) ELSE <<w, 0>>
RECURSIVE WayRecs(_)
WayRecs(ws) == IF ws = <<>> THEN <<>> ELSE WayRec(ws[1][2]) \o WayRecs(Tail(ws))
Expect(rs) == IF rs = <<>> THEN <<>>
    ELSE <<rs[1][1], Len(WaysOf(rs[1][2]))>> \o WayRecs(WaysOf(rs[1][2])) \o Expect(Tail(rs))
Exact == phase = "done" => dir = (Passes :> Expect(rels))
TwoFiles == Cardinality(DOMAIN dir) <= 2
Ends == <>(phase = "done")
=============================================================================
