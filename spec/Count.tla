------------------------------- MODULE Count -------------------------------
(* entitycount: workers take blocks in any division, count locally, and at the end add their
   counts to the shared totals and raise the shared maximum.  Each access to shared memory is
   one step.  Design: "ok"    atomic add, compare-and-swap loop for the maximum
                      "split" the add is a load and a store
                      "once"  the maximum is stored after one comparison, without the loop *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers, Blocks,  \* Blocks: sequence of sequences of ids
          Designs
BlocksSmall == <<<<1, 2>>, <<5>>, <<>>, <<3, 4>>>>
BlocksBig == <<<<1, 2>>, <<9, 5>>, <<>>, <<3, 4>>, <<7>>, <<8, 6>>>>
VARIABLES design, next, pc, cnt, mx, total, max, tmp
vars == <<design, next, pc, cnt, mx, total, max, tmp>>
M(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN 0 ELSE M(s[1], MaxOf(Tail(s)))
Init == /\ design \in Designs /\ next = 1 /\ pc = [w \in Workers |-> "work"]
        /\ cnt = [w \in Workers |-> 0] /\ mx = [w \in Workers |-> 0] /\ total = 0 /\ max = 0 /\ tmp = [w \in Workers |-> 0]
Take(w) == /\ pc[w] = "work" /\ next <= Len(Blocks) /\ next' = next + 1
           /\ cnt' = [cnt EXCEPT ![w] = @ + Len(Blocks[next])]
           /\ mx' = [mx EXCEPT ![w] = M(@, MaxOf(Blocks[next]))]
           /\ UNCHANGED <<design, pc, total, max, tmp>>
Finish(w) == /\ pc[w] = "work" /\ next > Len(Blocks) /\ pc' = [pc EXCEPT ![w] = "add"]
             /\ UNCHANGED <<design, next, cnt, mx, total, max, tmp>>
Add(w) == /\ pc[w] = "add"
          /\ IF design = "split"
             THEN tmp' = [tmp EXCEPT ![w] = total] /\ pc' = [pc EXCEPT ![w] = "store"] /\ UNCHANGED total
             ELSE total' = total + cnt[w] /\ pc' = [pc EXCEPT ![w] = "load"] /\ UNCHANGED tmp
          /\ UNCHANGED <<design, next, cnt, mx, max>>
Store(w) == /\ pc[w] = "store" /\ total' = tmp[w] + cnt[w] /\ pc' = [pc EXCEPT ![w] = "load"]
            /\ UNCHANGED <<design, next, cnt, mx, max, tmp>>
Load(w) == /\ pc[w] = "load" /\ tmp' = [tmp EXCEPT ![w] = max]
           /\ pc' = [pc EXCEPT ![w] = IF mx[w] > max THEN "cas" ELSE "end"]
           /\ UNCHANGED <<design, next, cnt, mx, total, max>>
Cas(w) == /\ pc[w] = "cas"
          /\ IF max = tmp[w] \/ design = "once"
             THEN max' = mx[w] /\ pc' = [pc EXCEPT ![w] = "end"]
             ELSE pc' = [pc EXCEPT ![w] = "load"] /\ UNCHANGED max
          /\ UNCHANGED <<design, next, cnt, mx, total, tmp>>
Next == \E w \in Workers : Take(w) \/ Finish(w) \/ Add(w) \/ Store(w) \/ Load(w) \/ Cas(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Len(Blocks[i]) + Sum(i - 1)
RECURSIVE Top(_)
Top(i) == IF i = 0 THEN 0 ELSE M(MaxOf(Blocks[i]), Top(i - 1))
Done == \A w \in Workers : pc[w] = "end"
Exact == Done => total = Sum(Len(Blocks)) /\ max = Top(Len(Blocks))
Ends == <>Done
=============================================================================
