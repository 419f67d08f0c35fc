------------------------------ MODULE Rewrite ------------------------------
(* cmd/rewritenodes: several passes over a file, each replacing the references which
   its part of the node index answers.  Passes communicate through intermediate
   files; the directory is part of the state.  Ids are 0..MaxId, the location of an
   indexed node is negative (Words!Loc is), and two nodes may share a location. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxId, MaxRefs, NBlocks, MaxPasses

Ids == 0..MaxId
LocOf(n) == -1 - (n \div 2)
RefSeqs == UNION {[1..n -> Ids] : n \in 0..MaxRefs}

VARIABLES file,      \* the input: a sequence of blocks, "none" stands for a block without ways
          index,     \* indexed nodes
          cuts,      \* cuts[p] = the ids below which pass p answers; passes = Len(cuts)
          pass, pos, \* block pos of pass pass is next
          dir,       \* name -> content; name 0 is the input, Passes the output, others intermediate
          phase
vars == <<file, index, cuts, pass, pos, dir, phase>>

Passes == Len(cuts)
Block == RefSeqs \cup {"none"}
None == "none"
Mine(p) == {n \in index : n < cuts[p] /\ (p = 1 \/ n >= cuts[p-1])}

Init == /\ file \in UNION {[1..n -> {<<r>> : r \in RefSeqs} \cup {<<>>}] : n \in 0..NBlocks}
        /\ index \in SUBSET Ids
        /\ \E n \in 1..MaxPasses : cuts \in {c \in [1..n -> 0..(MaxId+1)] :
              c[n] = MaxId + 1 /\ \A i \in 1..(n-1) : c[i] <= c[i+1]}
        /\ pass = 1 /\ pos = 1 /\ dir = (0 :> file) /\ phase = "start"

\* a pass creates its output, removing what the pass before the last one left
StartPass == /\ phase = "start" /\ pass <= Passes
             /\ dir' = (pass :> <<>>) @@ [f \in (DOMAIN dir) \ (IF pass > 2 THEN {pass-2} ELSE {}) |-> dir[f]]
             /\ pos' = 1 /\ phase' = "work" /\ UNCHANGED <<file, index, cuts, pass>>

Ref(p, r) == IF r < 0 THEN r ELSE IF r \in Mine(p) THEN LocOf(r) ELSE r
Way(p, refs) == [i \in 1..Len(refs) |-> Ref(p, refs[i])]

PassThrough == /\ phase = "work" /\ pos <= Len(dir[pass-1]) /\ dir[pass-1][pos] = <<>>
               /\ dir' = [dir EXCEPT ![pass] = Append(@, <<>>)]
               /\ pos' = pos + 1 /\ UNCHANGED <<file, index, cuts, pass, phase>>
RewriteBlock == /\ phase = "work" /\ pos <= Len(dir[pass-1]) /\ dir[pass-1][pos] # <<>>
                /\ dir' = [dir EXCEPT ![pass] = Append(@, <<Way(pass, dir[pass-1][pos][1])>>)]
                /\ pos' = pos + 1 /\ UNCHANGED <<file, index, cuts, pass, phase>>
EndPass == /\ phase = "work" /\ pos > Len(dir[pass-1])
           /\ pass' = pass + 1 /\ phase' = IF pass = Passes THEN "cleanup" ELSE "start"
           /\ UNCHANGED <<file, index, cuts, pos, dir>>
Cleanup == /\ phase = "cleanup" /\ phase' = "done"
           /\ dir' = [f \in (DOMAIN dir) \ (IF Passes > 1 THEN {Passes-1} ELSE {}) |-> dir[f]]
           /\ UNCHANGED <<file, index, cuts, pass, pos>>

Next == StartPass \/ PassThrough \/ RewriteBlock \/ EndPass \/ Cleanup
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* -------------------------------------------------------------- properties
Expect(refs) == [i \in 1..Len(refs) |-> IF refs[i] \in index THEN LocOf(refs[i]) ELSE refs[i]]
Result == [b \in 1..Len(file) |-> IF file[b] = <<>> THEN <<>> ELSE <<Expect(file[b][1])>>]
Exact == phase = "done" => dir[Passes] = Result
InputIntact == dir[0] = file
NothingLeft == phase = "done" => DOMAIN dir = {0, Passes}
Available == phase = "work" => pass - 1 \in DOMAIN dir
NeverUndone == [][\A f \in DOMAIN dir \cap DOMAIN dir' : Len(dir'[f]) >= Len(dir[f])]_vars
Ends == <>(phase = "done")
=============================================================================
